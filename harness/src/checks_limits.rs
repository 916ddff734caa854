//! C22: programs around the size limits.

use crate::ast::*;
use crate::checks_sem::*;
use crate::checks_syn::fail;
use crate::gensem::*;
use crate::gentmpl::*;
use crate::runner::{Check, Cx, Res, Suite};
use crate::tape::Tape;
use crate::util::*;
use dice_bytecode::{Bytecode, ConstantValue};

const LONG: u64 = 400_000;

/// A size close to a limit, or any smaller one.
fn near(t: &mut Tape, limit: usize) -> usize {
    match t.below(10) {
        0 => t.below(limit + 1),
        1 => limit / 2 + t.below(4) - 1,
        2 => limit + t.range(1, 300),
        3 | 4 => limit,
        5 | 6 => limit + 1,
        7 => limit - 1,
        _ => limit - 4 + t.below(9),
    }
}

/// Compiles within the limit and runs as it should; is rejected with the code beyond it.
fn decide(p: Program, within: bool, code: &str, cx: &mut Cx) -> Res {
    if within {
        cx.label("within");
        match run_both_for(&p, cx, LONG) {
            Ran::Skip(_) => Res::Discard,
            Ran::Differ(m) => Res::Fail(m),
            Ran::Same(_) => Res::Ok(true),
        }
    } else {
        cx.label("beyond");
        cx.text = p.show();
        match compile(&p.text, p.module) {
            Err(m) => Res::Fail(format!("compiler panic: {}", m)),
            Ok(Ok(_)) => Res::Fail("compiled beyond the limit".into()),
            Ok(Err(e)) if e.error_code() == code => Res::Ok(true),
            Ok(Err(e)) => Res::Fail(format!("expected {}, got {}", code, debug(&e))),
        }
    }
}

/// Small programs around the construct, which must keep working.
fn surround(t: &mut Tape, items: Vec<N>, cx: &mut Cx) -> Vec<N> {
    if t.chance(2, 3) {
        return items;
    }
    cx.label("surrounded");
    let cfg = Cfg {
        stmts: 2,
        depth: 2,
        errors: 0,
        ..Cfg::general()
    };
    let mut out = if t.bool() { Gen::new(t, cfg).program() } else { vec![] };
    let own = fn_decl("zz_main", vec![], None, items);
    if t.bool() {
        out.insert(0, own);
    } else {
        out.push(own);
    }
    out.push(emit(call(id("zz_main"), vec![])));
    out
}

/// A value that differs from its neighbours and needs no constant.
fn cheap(t: &mut Tape, i: usize) -> N {
    match (i + t.below(2)) % 7 {
        0 => int(0),
        1 => int(1),
        2 => boolean(true),
        3 => boolean(false),
        4 => n(K::Null),
        5 => n(K::Unit),
        _ => int((i % 40) as i64),
    }
}

fn c22_arity(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = near(t, 255);
    let what = t.below(16);
    // Which of the two sides is beyond the limit.
    let params: Vec<Param> = (0..k).map(|i| Param::new(&format!("p{}", i))).collect();
    let with_self = |k: usize| -> Vec<Param> {
        let mut v = vec![Param::new("self")];
        v.extend((0..k.saturating_sub(1)).map(|i| Param::new(&format!("p{}", i))));
        v
    };
    let own = |k: usize| if k == 0 { 0 } else { k - 1 };
    let show = |t: &mut Tape, names: usize| -> Vec<N> {
        // Reads parameters from all over.
        let mut v = Vec::new();
        for i in 0..names {
            if i < 3 || i + 3 >= names || t.chance(1, 12) {
                v.push(id(&format!("p{}", i)));
            }
        }
        if names > 0 && t.bool() {
            let i = t.below(names);
            vec![assign(AOp::Set, id(&format!("p{}", i)), str_lit("set")), list(v)]
        } else {
            vec![list(v)]
        }
    };
    let args = |t: &mut Tape, k: usize| -> Vec<N> { (0..k).map(|i| cheap(t, i)).collect() };
    let mut items = Vec::new();
    let label;
    match what {
        0 => {
            label = "function";
            let b = vec![list((0..k).filter(|i| *i < 250).map(|i| id(&format!("p{}", i))).collect())];
            items.push(fn_decl("f", params, None, b));
            items.push(emit(call(id("f"), args(t, k))));
        }
        1 => {
            label = "function reading some";
            let b = show(t, k).into_iter().filter(|x| !matches!(x.k, K::Assign(..))).collect();
            items.push(fn_decl("f", params, None, b));
            items.push(emit(call(id("f"), args(t, k))));
        }
        2 => {
            label = "lambda";
            let body = list((0..k).filter(|i| i + 40 > k).map(|i| id(&format!("p{}", i))).collect());
            items.push(let_("f", false, n(K::Lambda(params, Box::new(body)))));
            items.push(emit(call(id("f"), args(t, k))));
        }
        3 => {
            label = "method";
            let m = own(k);
            let b: Vec<N> = show(t, m).into_iter().filter(|x| !matches!(x.k, K::Assign(..))).collect();
            items.push(class_("C", None, vec![fn_decl("m", with_self(k.max(1)), None, b)]));
            items.push(emit(call(field(call(id("C"), vec![]), "m"), args(t, m))));
        }
        4 => {
            label = "static method";
            let b: Vec<N> = show(t, k).into_iter().filter(|x| !matches!(x.k, K::Assign(..))).collect();
            items.push(class_("C", None, vec![fn_decl("m", params, None, b)]));
            items.push(emit(call(field(id("C"), "m"), args(t, k))));
        }
        5 => {
            label = "constructor";
            let m = own(k);
            let mut b = vec![assign(AOp::Set, field(id("self"), "v"), list((0..m.min(255)).map(|i| id(&format!("p{}", i))).collect()))];
            if t.bool() {
                b.push(emit(int(1)));
            }
            items.push(class_("C", None, vec![fn_decl("new", with_self(k.max(1)), None, b)]));
            items.push(emit(field(call(id("C"), args(t, m)), "v")));
        }
        6 => {
            label = "super constructor";
            let m = own(k);
            let b = vec![assign(AOp::Set, field(id("self"), "v"), list((0..m.min(255)).map(|i| id(&format!("p{}", i))).collect()))];
            items.push(class_("B", None, vec![fn_decl("new", with_self(k.max(1)), None, b)]));
            let args = args(t, m);
            items.push(class_("C", Some(id("B")), vec![fn_decl("new", with_self(1), None, vec![n(K::SuperCall(args))])]));
            items.push(emit(field(call(id("C"), vec![]), "v")));
        }
        7 => {
            label = "arguments";
            // The function has few parameters: only whether it is rejected, and that only at the call.
            items.push(let_("f", false, lambda(&["a"], id("a"))));
            items.push(emit(call(id("f"), args(t, k))));
        }
        12 => {
            label = "super arguments";
            // The base class takes fewer: only the call itself can be at fault.
            let b = vec![assign(AOp::Set, field(id("self"), "v"), id("p0"))];
            items.push(class_("B", None, vec![fn_decl("new", with_self(2), None, b)]));
            let args = args(t, k);
            items.push(class_("C", Some(id("B")), vec![fn_decl("new", with_self(1), None, vec![n(K::SuperCall(args))])]));
            items.push(emit(field(call(id("C"), vec![]), "v")));
        }
        13 => {
            label = "method arguments";
            let args = args(t, k);
            items.push(class_("B", None, vec![fn_decl("m", with_self(2), None, vec![id("p0")])]));
            items.push(class_(
                "C",
                Some(id("B")),
                vec![fn_decl("n", with_self(1), None, vec![call(n(K::SuperField(None, "m".into())), args.clone())])],
            ));
            if t.bool() {
                items.push(emit(call(field(call(id("C"), vec![]), "m"), args)));
            } else {
                items.push(emit(call(field(call(id("C"), vec![]), "n"), vec![])));
            }
        }
        8 => {
            label = "lambda called at once";
            let body = list((0..k).filter(|i| i % 9 == 0 || i + 3 > k).map(|i| id(&format!("p{}", i))).collect());
            items.push(emit(call(n(K::Lambda(params, Box::new(body))), args(t, k))));
        }
        9 => {
            label = "field of an object";
            let body = list((0..k).filter(|i| i % 9 == 0 || i + 3 > k).map(|i| id(&format!("p{}", i))).collect());
            items.push(let_("o", false, object(vec![("f", n(K::Lambda(params, Box::new(body))))])));
            items.push(emit(call(field(id("o"), "f"), args(t, k))));
        }
        10 => {
            label = "typed function";
            let params: Vec<Param> = params
                .into_iter()
                .enumerate()
                .map(|(i, mut p)| {
                    if i % 5 == 0 {
                        p.ty = Some(Ty::new("Int", i % 10 == 0));
                    }
                    p
                })
                .collect();
            let b = show(t, k).into_iter().filter(|x| !matches!(x.k, K::Assign(..))).collect();
            let vals = (0..k).map(|i| if i % 5 == 0 { int((i % 3) as i64) } else { cheap(t, i) }).collect();
            items.push(fn_decl("f", params, None, b));
            items.push(emit(call(id("f"), vals)));
        }
        14 => {
            label = "operator";
            let b = show(t, k).into_iter().filter(|x| !matches!(x.k, K::Assign(..))).collect();
            let op = *t.pick(&[Op::Add, Op::Mul, Op::Rem, Op::Eq, Op::Lt, Op::RangeEx]);
            items.push(n(K::OpDecl(op, params, None, Box::new(block(b)))));
        }
        15 => {
            label = "class operator";
            let b = show(t, own(k)).into_iter().filter(|x| !matches!(x.k, K::Assign(..))).collect();
            let op = *t.pick(&[Op::Sub, Op::Div, Op::Gt, Op::Ne, Op::Le, Op::RangeIn]);
            items.push(class_("C", None, vec![n(K::OpDecl(op, with_self(k.max(1)), None, Box::new(block(b))))]));
            items.push(emit(int(1)));
        }
        _ => {
            label = "function with locals";
            // Parameters and locals share the slots.
            let extra = if k < 255 { t.below(255 - k + 1) } else { 0 };
            let mut b: Vec<N> = (0..extra).map(|i| let_(&format!("l{}", i), false, int((i % 30) as i64))).collect();
            let mut v: Vec<N> = (0..k).filter(|i| i % 9 == 0 || i + 3 > k).map(|i| id(&format!("p{}", i))).collect();
            v.extend((0..extra).filter(|i| i % 7 == 0 || i + 3 > extra).map(|i| id(&format!("l{}", i))));
            b.push(list(v));
            items.push(fn_decl("f", params, None, b));
            items.push(emit(call(id("f"), args(t, k))));
        }
    }
    cx.label(label);
    let within = k <= 255;
    let items = surround(t, items, cx);
    decide(Program::new(items), within, "E1005", cx)
}

fn c22_list(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = near(t, 255);
    let mut items = vec![let_("x", true, int(0))];
    let v: Vec<N> = (0..k)
        .map(|i| match t.below(12) {
            0 => emit(cheap(t, i)),
            1 => list((0..t.below(4)).map(|i| int(i as i64)).collect()),
            2 => id("x"),
            3 => block(vec![assign(AOp::Add, id("x"), int(1)), id("x")]),
            _ => cheap(t, i),
        })
        .collect();
    let l = list(v);
    match t.below(5) {
        0 => items.push(emit(l)),
        1 => {
            items.push(let_("l", false, l));
            items.push(id("l"));
        }
        2 => {
            items.push(fn_decl("f", vec![], None, vec![l]));
            items.push(emit(call(id("f"), vec![])));
        }
        3 => items.push(list(vec![int(1), l, int(2)])),
        _ => {
            items.push(let_("l", false, l));
            for i in [0usize, 1, 127, 128, 253, 254] {
                if i < k {
                    items.push(emit(index(id("l"), int(i as i64))));
                }
            }
        }
    }
    let items = surround(t, items, cx);
    decide(Program::new(items), k <= 255, "E2103", cx)
}

/// One new constant, and an expression that needs it (and no other).
fn constant(t: &mut Tape, i: usize, fns: &mut usize) -> N {
    match t.below(9) {
        0..=2 => int(i as i64 + 2),
        3 => float(i as f64 + 2.5),
        4 | 5 => str_lit(&format!("s{}", i)),
        6 => field(id("o"), &format!("f{}", i)),
        7 => {
            *fns += 1;
            lambda(&["a"], bin(Op::Add, id("a"), int(1)))
        }
        _ => n(K::Neg(Box::new(int(i as i64 + 2)))),
    }
}

fn c22_constants(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = near(t, 256);
    // `emit` itself is one.
    let want = k.max(1) - 1;
    let mut body = vec![let_("o", false, id("oo"))];
    let mut fns = 0;
    let mut used: Vec<N> = Vec::new();
    for i in 0..want {
        let c = constant(t, i, &mut fns);
        used.push(c);
        // Again, which needs no further one.
        if t.chance(1, 5) {
            let j = t.below(used.len());
            if !matches!(used[j].k, K::Lambda(..)) {
                let again = used[j].clone();
                body.push(emit(again));
            }
        }
        let c = used.last().unwrap().clone();
        body.push(match (&c.k, t.below(3)) {
            (K::Lambda(..), 0) => call(c, vec![int(1)]),
            (K::Lambda(..), _) => emit(call(c, vec![int(1)])),
            (_, 0) => let_("z", false, c),
            (_, 1) => c,
            _ => emit(c),
        });
        if matches!(body.last().unwrap().k, K::Let(..)) {
            let x = body.pop().unwrap();
            body.push(block(vec![x]));
        }
    }
    body.push(emit(int(1)));
    let keys: Vec<(String, String, N)> = (0..want.min(40)).map(|i| (format!("f{}", i * 3), format!("f{}", i * 3), int(i as i64))).collect();
    let oo = n(K::Object(keys));
    let f = n(K::Fn(FnD {
        name: "f".into(),
        name_tok: 0,
        params: vec![Param::new("oo")],
        ret: None,
        body: Box::new(block(body)),
    }));
    let items = vec![f, call(id("f"), vec![oo])];
    let items = surround(t, items, cx);
    decide(Program::new(items), k <= 256, "E2101", cx)
}

/// `k` variables alive at once, in nested blocks, and their values shown.
fn alive(t: &mut Tape, from: usize, k: usize, out: &mut Vec<N>, names: &mut Vec<String>) {
    let mut left = k;
    let mut i = from;
    // Variables of blocks that have ended make room.
    for _ in 0..t.below(4) {
        if left > 0 && t.bool() {
            let m = t.range(1, left.min(60));
            let inner: Vec<N> = (0..m).map(|j| let_(&format!("t{}", j), false, int(1))).collect();
            let mut inner = inner;
            inner.push(emit(id(&format!("t{}", m - 1))));
            out.push(match t.below(2) {
                0 => block(inner),
                _ => iff(boolean(true), inner, None),
            });
        }
        let m = t.below(left + 1);
        for _ in 0..m {
            declare(t, i, out, names);
            i += 1;
        }
        left -= m;
    }
    if left > 0 && t.chance(1, 3) {
        let m = t.range(1, left);
        for _ in 0..left - m {
            declare(t, i, out, names);
            i += 1;
        }
        let mut inner = Vec::new();
        alive(t, i, m, &mut inner, names);
        show_names(t, names, &mut inner);
        out.push(block(inner));
        names.truncate(i);
        names.retain(|_| true);
    } else {
        for _ in 0..left {
            declare(t, i, out, names);
            i += 1;
        }
    }
}

fn declare(t: &mut Tape, i: usize, out: &mut Vec<N>, names: &mut Vec<String>) {
    let name = format!("v{}", i);
    // Functions exist from the start of their block, and each is a constant.
    let early = !out.iter().any(|x| matches!(x.k, K::Block(_) | K::If(..)));
    let few = names.iter().filter(|s| s.ends_with(')')).count() < 30;
    match t.below(12) {
        0 if early && few => out.push(fn_decl(&name, vec![], None, vec![int((i % 50) as i64)])),
        1 => out.push(let_(&name, true, int((i % 50) as i64))),
        _ => out.push(let_(&name, false, int((i % 50) as i64))),
    }
    if !matches!(out.last().unwrap().k, K::Fn(_)) {
        names.push(name);
    } else {
        names.push(format!("{}()", name));
    }
}

fn show_names(t: &mut Tape, names: &[String], out: &mut Vec<N>) {
    let len = names.len();
    let mut v = Vec::new();
    for (i, s) in names.iter().enumerate() {
        if i < 2 || i + 3 >= len || t.chance(1, 20) {
            v.push(match s.strip_suffix("()") {
                Some(f) => call(id(f), vec![]),
                None => id(s),
            });
        }
    }
    out.push(emit(list(v)));
}

fn c22_locals(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = near(t, 256);
    let mut items = Vec::new();
    let mut names = Vec::new();
    let mut p;
    match t.below(5) {
        0 => {
            cx.label("script");
            alive(t, 0, k, &mut items, &mut names);
            show_names(t, &names, &mut items);
            p = Program::new(items);
        }
        1 => {
            // The module itself is one.
            cx.label("module");
            alive(t, 0, k.max(1) - 1, &mut items, &mut names);
            show_names(t, &names, &mut items);
            if let Some(x) = names.iter().find(|s| !s.contains('(')) {
                if items.iter().any(|y| matches!(&y.k, K::Let(v, ..) if v[0] == *x)) {
                    items.push(n(K::Export(Box::new(id(x)))));
                }
            }
            p = Program::new(items);
            p.module = true;
        }
        w => {
            // The function itself is one.
            let (params, own) = (t.below(5), k.max(1) - 1);
            let params = params.min(own);
            alive(t, 0, own - params, &mut items, &mut names);
            show_names(t, &names, &mut items);
            items.push(list((0..params).map(|i| id(&format!("q{}", i))).collect()));
            let ps: Vec<Param> = (0..params).map(|i| Param::new(&format!("q{}", i))).collect();
            let args: Vec<N> = (0..params).map(|i| int(i as i64 + 7)).collect();
            let all = match w {
                2 => {
                    cx.label("function");
                    vec![fn_decl("f", ps, None, items), emit(call(id("f"), args))]
                }
                3 => {
                    cx.label("lambda");
                    vec![emit(call(n(K::Lambda(ps, Box::new(block(items)))), args))]
                }
                _ => {
                    cx.label("method");
                    if own == 0 || params + 1 > own || k < 3 {
                        return Res::Discard;
                    }
                    // The receiver takes the place of the function.
                    let mut ps2 = vec![Param::new("self")];
                    ps2.extend(ps);
                    let c = class_("C", None, vec![fn_decl("m", ps2, None, items)]);
                    vec![c, emit(call(field(call(id("C"), vec![]), "m"), args))]
                }
            };
            p = Program::new(all);
        }
    }
    decide(p, k <= 256, "E2102", cx)
}

fn c22_captures(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = near(t, 255);
    let (a_max, b_max) = (240, 240);
    if k > a_max + b_max {
        return Res::Discard;
    }
    // Some of the captured variables are two functions up, some one.
    let lo = k.saturating_sub(b_max);
    let hi = k.min(a_max);
    let a = t.range(lo, hi.max(lo));
    let b = k - a;
    let mutable: Vec<bool> = (0..k).map(|_| t.chance(1, 4)).collect();
    let mut order: Vec<usize> = (0..k).collect();
    if t.bool() {
        for i in (1..k).rev() {
            let j = t.below(i + 1);
            order.swap(i, j);
        }
    }
    let var = |i: usize| format!("v{}", i);
    let mut inner = Vec::new();
    let mut acc: Vec<N> = Vec::new();
    for &i in &order {
        if mutable[i] && t.bool() {
            inner.push(assign(AOp::Add, id(&var(i)), int(1)));
        } else {
            acc.push(id(&var(i)));
        }
    }
    inner.push(let_("s", true, int(0)));
    for x in acc {
        inner.push(assign(AOp::Set, id("s"), bin(Op::Add, bin(Op::Mul, id("s"), int(3)), x)));
        inner.push(assign(AOp::Set, id("s"), bin(Op::Rem, id("s"), int(1_000_003))));
    }
    inner.push(id("s"));
    let decl = |i: usize| let_(&var(i), mutable[i], int((i % 90) as i64));
    let mut middle: Vec<N> = (a..k).map(decl).collect();
    let lam = n(K::Lambda(vec![], Box::new(block(inner.clone()))));
    let as_fn = t.bool();
    if as_fn {
        middle.push(fn_decl("g", vec![], None, inner));
    } else {
        middle.push(let_("g", false, lam));
    }
    middle.push(emit(call(id("g"), vec![])));
    if b > 0 && mutable[k - 1] {
        middle.push(emit(id(&var(k - 1))));
    }
    middle.push(id("g"));
    let mut items: Vec<N> = (0..a).map(decl).collect();
    items.push(fn_decl("f", vec![], None, middle));
    items.push(let_("h", false, call(id("f"), vec![])));
    items.push(emit(call(id("h"), vec![])));
    if a > 0 {
        items.push(emit(list((0..a.min(250)).map(|i| id(&var(i))).collect())));
    }
    decide(Program::new(items), k <= 255, "E2100", cx)
}

/// Statements that together take about `bytes` bytes of code.
fn filler(t: &mut Tape, bytes: usize, x: &str) -> Vec<N> {
    let mut v = Vec::new();
    let mut left = bytes as i64;
    // Most of it in large pieces.
    while left > 240 {
        let m = t.range(20, 100).min(left as usize / 2);
        v.push(list((0..m).map(|i| if i % 3 == 0 { n(K::Null) } else { n(K::Unit) }).collect()));
        left -= m as i64 + 3;
    }
    while left > 6 {
        v.push(match left % 3 {
            0 => id(x),
            _ => n(K::Unit),
        });
        left -= if left % 3 == 0 { 3 } else { 2 };
    }
    v
}

fn c22_jumps(t: &mut Tape, cx: &mut Cx) -> Res {
    let size = match t.below(8) {
        0 => t.range(100, 32_000),
        1 => t.range(32_700, 32_767),
        2 => t.range(32_768, 36_000),
        3 => t.range(65_400, 65_700),
        4 => t.range(36_000, 70_000),
        _ => 32_767 - 60 + t.below(70),
    };
    let what = t.below(16);
    let mut big = filler(t, size, "x");
    let mut items = vec![let_("x", true, int(0)), emit(str_lit("before"))];
    let inc = || assign(AOp::Add, id("x"), int(1));
    let mut inside = vec![inc()];
    inside.append(&mut big);
    inside.push(emit(id("x")));
    let cond = |t: &mut Tape| {
        let b = t.bool();
        bin(Op::Eq, id("x"), int(if b { 0 } else { 7 }))
    };
    let label = [
        "if", "if else", "else", "while", "loop", "for", "and", "or", "coalesce", "null chain", "propagate", "or error", "break", "continue", "for iterator",
        "return",
    ][what];
    cx.label(label);
    match what {
        0 => {
            let c = cond(t);
            items.push(emit(iff(c, inside, None)));
        }
        1 => {
            let c = cond(t);
            items.push(emit(iff(c, inside, Some(vec![int(5)]))));
        }
        2 => {
            let c = cond(t);
            items.push(emit(iff(c, vec![int(5)], Some(inside))));
        }
        3 => items.push(while_(bin(Op::Lt, id("x"), int(2)), inside)),
        4 => {
            let mut b = inside;
            if t.bool() {
                b.insert(1, iff(bin(Op::Gt, id("x"), int(1)), vec![brk()], None));
            } else {
                b.push(iff(bin(Op::Gt, id("x"), int(1)), vec![brk()], None));
            }
            items.push(loop_(b));
        }
        5 => items.push(for_("i", range(Op::RangeEx, int(0), int(2)), inside)),
        6 => {
            let c = cond(t);
            inside.push(boolean(true));
            items.push(emit(bin(Op::And, c, block(inside))));
        }
        7 => {
            let c = cond(t);
            inside.push(boolean(false));
            items.push(emit(bin(Op::Or, c, block(inside))));
        }
        8 => {
            let l = if t.bool() { n(K::Null) } else { int(3) };
            inside.push(int(9));
            items.push(emit(bin(Op::Coalesce, l, block(inside))));
        }
        9 => {
            // A long chain of arguments behind a null test.
            let o = if t.bool() { n(K::Null) } else { object(vec![("f", lambda(&["a"], id("a")))]) };
            items.push(let_("o", false, o));
            inside.push(int(4));
            items.push(emit(call(field(n(K::NullProp(Box::new(id("o")))), "f"), vec![block(inside)])));
        }
        10 => {
            let v = if t.bool() { "Ok" } else { "Err" };
            let mut b = vec![let_("v", false, prop(call(id(v), vec![int(1)])))];
            b.extend(inside);
            b.push(call(id("Ok"), vec![id("v")]));
            items.push(fn_decl("f", vec![], None, b));
            items.push(emit(field(call(id("f"), vec![]), "is_ok")));
        }
        11 => {
            let v = if t.bool() { "Ok" } else { "Err" };
            inside.push(int(8));
            items.push(emit(or_(call(id(v), vec![int(1)]), "e", inside)));
        }
        12 => {
            let mut b = inside;
            b.insert(1, iff(bin(Op::Eq, id("x"), int(2)), vec![emit(str_lit("out")), brk()], None));
            items.push(while_(bin(Op::Lt, id("x"), int(5)), b));
        }
        13 => {
            let mut b = inside;
            let k = t.range(1, b.len() - 1);
            b.insert(k, iff(bin(Op::Eq, id("x"), int(1)), vec![cont()], None));
            items.push(while_(bin(Op::Lt, id("x"), int(2)), b));
        }
        14 => items.push(for_("i", list(vec![int(3)]), inside)),
        _ => {
            let mut b = vec![iff(bin(Op::Eq, id("x"), int(0)), vec![ret(int(6))], None)];
            b.extend(inside);
            items.push(fn_decl("f", vec![], None, b));
            items.push(emit(call(id("f"), vec![])));
        }
    }
    items.push(emit(str_lit("after")));
    items.push(id("x"));
    let p = Program::new(items);
    let shown = p.text.clone();
    let r = match compile(&p.text, false) {
        Err(m) => Res::Fail(format!("compiler panic: {}", m)),
        Ok(Err(e)) => {
            cx.text = shown.clone();
            if e.error_code() == "E2104" && size > 32_000 {
                cx.label("rejected");
                return Res::Ok(true);
            }
            Res::Fail(format!("{} for {} bytes: {}", e.error_code(), size, debug(&e)))
        }
        Ok(Ok(_)) => {
            cx.label("compiled");
            match run_both_for(&p, cx, LONG) {
                Ran::Skip(_) => Res::Discard,
                Ran::Differ(m) => Res::Fail(m),
                Ran::Same(_) => Res::Ok(true),
            }
        }
    };
    if cx.text.len() > 3000 {
        cx.text = format!("{} of {} bytes: {} ...", label, size, &shown[..shown.char_indices().nth(2000).map(|x| x.0).unwrap_or(shown.len())]);
    }
    r
}

fn named<'a>(code: &'a Bytecode, name: &str) -> Option<&'a Bytecode> {
    code.constants().iter().find_map(|c| match c {
        ConstantValue::Function(f) if f.name == name => Some(&f.bytecode),
        _ => None,
    })
}

/// Programs of every kind with slots and constants used up before.
fn c22_padded(t: &mut Tape, cx: &mut Cx) -> Res {
    let (items, mut module) = crate::checks_code::meaningful(t, cx);
    let in_fn = t.chance(1, 3) && !items.iter().any(|x| matches!(x.k, K::Export(_) | K::Import(..)));
    if in_fn {
        module = false;
    }
    let wrap = |v: Vec<N>| -> Vec<N> {
        if in_fn {
            vec![fn_decl("zz_main", vec![], None, v), emit(call(id("zz_main"), vec![]))]
        } else {
            v
        }
    };
    let mut bare = Program::new(wrap(items.clone()));
    bare.module = module;
    cx.text = bare.show();
    let code = match compile(&bare.text, module) {
        Err(m) => fail!("compiler panic: {}", m),
        Ok(Err(e)) => fail!("rejected: {}", debug(&e)),
        Ok(Ok(c)) => c,
    };
    let unit = if in_fn { named(&code, "zz_main") } else { Some(&code) };
    let Some(unit) = unit else { fail!("function zz_main is not in the code") };
    let (slots, constants) = (unit.slot_count(), unit.constants().len());
    if slots > 256 || constants > 256 {
        fail!("{} slots and {} constants", slots, constants);
    }
    let pick = |t: &mut Tape, room: usize| match t.below(6) {
        0 => 0,
        1 => room + 1 + t.below(3),
        2 | 3 => room,
        4 => room.saturating_sub(t.below(8)),
        _ => t.below(room + 1),
    };
    let m = pick(t, 256 - slots);
    let k = pick(t, 256 - constants);
    let mut all: Vec<N> = Vec::new();
    all.extend((0..m).map(|i| let_(&format!("zz_{}", i), t.bool(), int((i % 2) as i64))));
    all.extend((0..k).map(|i| {
        let v = 1_000_000_007 + i as i64;
        match t.below(3) {
            0 => int(v),
            1 => float(v as f64 + 0.25),
            _ => str_lit(&format!("zz{}", v)),
        }
    }));
    all.extend(items);
    let mut p = Program::new(wrap(all));
    p.module = module;
    cx.text = p.show();
    match compile(&p.text, module) {
        Err(e) => fail!("compiler panic: {}", e),
        Ok(Err(e)) => {
            let c = e.error_code();
            let ok = (c == "E2102" && slots + m > 256) || (c == "E2101" && constants + k > 256);
            if !ok {
                fail!("rejected with {} slots and {} constants: {}", slots + m, constants + k, debug(&e));
            }
            cx.label("beyond");
            Res::Ok(true)
        }
        Ok(Ok(_)) => {
            if slots + m > 256 || constants + k > 256 {
                fail!("compiled with {} slots and {} constants", slots + m, constants + k);
            }
            cx.label(if slots + m == 256 || constants + k == 256 { "at the limit" } else { "within" });
            match run_both_for(&p, cx, LONG) {
                Ran::Skip(_) => Res::Discard,
                Ran::Differ(e) => Res::Fail(e),
                Ran::Same(_) => Res::Ok(slots + m > 128 || constants + k > 128),
            }
        }
    }
}

pub fn c22() -> Check {
    let suite = |name, quick, thorough, f, rule| Suite { name, quick, thorough, f, rule };
    Check {
        id: "C22",
        suites: vec![
            suite("arity", 12_000, 400_000, c22_arity as crate::runner::CaseFn, "parameters and arguments of every kind of function around 255; all non-trivial"),
            suite("lists", 6_000, 200_000, c22_list, "list literals around 255 items; all non-trivial"),
            suite("constants", 6_000, 200_000, c22_constants, "functions with distinct constants of every kind around 256; all non-trivial"),
            suite("locals", 8_000, 300_000, c22_locals, "variables alive at once around 256, in scripts, modules, functions and methods; all non-trivial"),
            suite("captures", 6_000, 200_000, c22_captures, "closures over around 255 variables of two enclosing functions; all non-trivial"),
            suite("jumps", 3_000, 60_000, c22_jumps, "every construct that jumps over code of around 32767 and 65536 bytes; all non-trivial"),
            suite("padded", 12_000, 400_000, c22_padded, "programs of every generator with their slots and constants moved up to and beyond the limit; non-trivial with more than 128 of either"),
        ],
        assumptions: vec!["a jump that does not fit may be rejected or encoded otherwise; a program whose jumps are shorter than 32000 bytes must be accepted"],
        probes: vec![],
    }
}
