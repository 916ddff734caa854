//! Edits of syntax trees that keep them grammatical but may break the language's static rules.

use crate::ast::*;
use crate::checks_code::{expressions, In};
use crate::gensem::*;
use crate::tape::Tape;

/// Applies `f` to the `k`-th node that `pick` accepts; or counts them.
fn nodes(items: &mut Vec<N>, pick: &dyn Fn(&N) -> bool, mut act: Option<(usize, &mut dyn FnMut(&mut N))>) -> usize {
    let mut i = 0;
    for x in items.iter_mut() {
        x.walk_mut(&mut |y| {
            if pick(y) {
                if let Some((k, f)) = &mut act {
                    if i == *k {
                        f(y)
                    }
                }
                i += 1;
            }
        });
    }
    i
}

fn edit_node(t: &mut Tape, items: &mut Vec<N>, pick: &dyn Fn(&N) -> bool, f: &mut dyn FnMut(&mut N, &mut Tape)) -> bool {
    let total = nodes(items, pick, None);
    if total == 0 {
        return false;
    }
    let k = t.below(total);
    nodes(items, pick, Some((k, &mut |x| f(x, t))));
    true
}

/// Visits the item lists of the program: the whole and every block.
fn lists(items: &mut Vec<N>, f: &mut dyn FnMut(usize, &mut Vec<N>)) -> usize {
    f(0, items);
    let mut i = 1;
    for x in items.iter_mut() {
        x.walk_mut(&mut |y| {
            if let K::Block(v) = &mut y.k {
                f(i, v);
                i += 1;
            }
        });
    }
    i
}

/// Every name the program spells.
pub fn names(items: &mut Vec<N>) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut add = |s: &str| {
        if !out.iter().any(|x| x == s) && s != "self" && s != "emit" {
            out.push(s.to_string())
        }
    };
    for x in items.iter_mut() {
        x.walk_mut(&mut |y| match &y.k {
            K::Ident(s) => add(s),
            K::Let(v, ..) => v.iter().for_each(|s| add(s)),
            K::Fn(d) => {
                add(&d.name);
                d.params.iter().for_each(|p| add(&p.name));
            }
            K::Lambda(ps, _) => ps.iter().for_each(|p| add(&p.name)),
            K::Class(s, ..) => add(s),
            K::For(s, ..) => add(s),
            K::ErrOr(_, s, _) => add(s),
            _ => {}
        });
    }
    out.retain(|s| s != "new");
    if out.is_empty() {
        out.push("x".into());
    }
    out
}

fn name(t: &mut Tape, pool: &[String]) -> String {
    if t.chance(1, 8) {
        "fresh".into()
    } else {
        t.pick(pool).clone()
    }
}

/// A name to use, which may be the receiver's.
fn used_name(t: &mut Tape, pool: &[String]) -> String {
    if t.chance(1, 10) {
        "self".into()
    } else {
        name(t, pool)
    }
}

/// An item that is only right in some places.
fn risky(t: &mut Tape, pool: &[String]) -> N {
    let x = name(t, pool);
    let used = used_name(t, pool);
    match t.below(16) {
        0 => n(K::Break),
        1 => n(K::Continue),
        2 => n(K::Return(None)),
        3 => ret(int(1)),
        4 => n(K::ErrProp(Box::new(id(&used)))),
        5 => n(K::SuperField(None, "m".into())),
        6 => n(K::SuperCall(vec![])),
        7 => set(&used, int(1)),
        8 => assign(*t.pick(&[AOp::Add, AOp::Sub, AOp::Mul, AOp::Div]), id(&used), int(1)),
        9 => fn_decl(&x, vec![], None, vec![]),
        10 => n(K::Class(x, 0, None, vec![])),
        11 => let_(&x, t.bool(), int(1)),
        12 => n(K::Export(Box::new(match t.below(4) {
            0 => id(&x),
            1 => let_(&x, false, int(1)),
            2 => fn_decl(&x, vec![], None, vec![]),
            _ => n(K::Let(vec![x], true, false, Box::new(id("o")))),
        }))),
        13 => n(K::Import(Some(x), vec![], "\"m\"".into())),
        14 => n(K::SuperField(Some(x), "m".into())),
        _ => id(&used),
    }
}

/// Puts an export somewhere: a new item, or an item of the program turned into one.
pub fn add_export(t: &mut Tape, items: &mut Vec<N>) -> usize {
    let pool = names(items);
    let total = lists(items, &mut |_, _| {});
    let which = if t.chance(1, 4) { 0 } else { t.below(total) };
    let turn = t.bool();
    let x = name(t, &pool);
    let new = n(K::Export(Box::new(match t.below(6) {
        0 | 1 => id(&x),
        2 => let_("fresh", t.bool(), int(1)),
        3 => fn_decl("fresh", vec![], None, vec![]),
        4 => n(K::Class("fresh".into(), 0, None, vec![])),
        _ => n(K::Let(vec!["fresh".into(), "other".into()], true, false, Box::new(n(K::Object(vec![])))))
    })));
    let place = t.u64() as usize;
    lists(items, &mut |i, v| {
        if i != which {
            return;
        }
        let able: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i].k, K::Let(..) | K::Fn(_) | K::Class(..) | K::Ident(_))).collect();
        if turn && !able.is_empty() {
            let k = able[place % able.len()];
            let old = std::mem::replace(&mut v[k], n(K::Break));
            v[k] = n(K::Export(Box::new(old)));
        } else {
            let k = place % (v.len() + 1);
            v.insert(k, new.clone());
        }
    });
    which
}

fn is_ctor(x: &N) -> bool {
    matches!(&x.k, K::Fn(d) if d.name == "new" && d.params.first().map_or(false, |p| p.name == "self"))
}

/// One edit; says which kind it was.
pub fn perturb(t: &mut Tape, items: &mut Vec<N>) -> &'static str {
    let pool = names(items);
    for _ in 0..4 {
        let done = match t.below(17) {
            0 => edit_node(t, items, &|x| matches!(x.k, K::Let(..)), &mut |x, _| {
                if let K::Let(_, _, m, _) = &mut x.k {
                    *m = !*m
                }
            })
            .then_some("mutability"),
            1 => edit_node(t, items, &|x| matches!(x.k, K::Ident(_)), &mut |x, t| x.k = K::Ident(used_name(t, &pool)))
                .then_some("name used"),
            2 => edit_node(t, items, &|x| matches!(&x.k, K::Let(v, ..) if !v.is_empty()), &mut |x, t| {
                if let K::Let(v, ..) = &mut x.k {
                    let i = t.below(v.len());
                    v[i] = name(t, &pool);
                }
            })
            .then_some("name declared"),
            3 => edit_node(t, items, &|x| matches!(x.k, K::Fn(_) | K::Class(..) | K::For(..)), &mut |x, t| match &mut x.k {
                K::Fn(d) => d.name = if t.chance(1, 3) { "new".into() } else { name(t, &pool) },
                K::Class(s, ..) | K::For(s, ..) => *s = name(t, &pool),
                _ => {}
            })
            .then_some("item name"),
            4..=6 => {
                let total = lists(items, &mut |_, _| {});
                let k = t.below(total);
                let x = risky(t, &pool);
                lists(items, &mut |i, v| {
                    if i == k {
                        let at = t.below(v.len() + 1);
                        v.insert(at, x.clone());
                    }
                });
                Some("item added")
            }
            7 => {
                let total = lists(items, &mut |_, _| {});
                let k = t.below(total);
                let mut done = false;
                lists(items, &mut |i, v| {
                    if i == k && v.len() > 1 {
                        let a = t.below(v.len());
                        let b = t.below(v.len());
                        v.swap(a, b);
                        done = true;
                    }
                });
                done.then_some("items swapped")
            }
            8 => {
                let total = lists(items, &mut |_, _| {});
                let k = t.below(total);
                let mut done = false;
                lists(items, &mut |i, v| {
                    if i == k && !v.is_empty() {
                        let a = t.below(v.len());
                        let x = v[a].clone();
                        let b = t.below(v.len() + 1);
                        v.insert(b, x);
                        done = true;
                    }
                });
                done.then_some("item doubled")
            }
            9 => {
                let total = lists(items, &mut |_, _| {});
                let k = t.below(total);
                let mut taken = None;
                lists(items, &mut |i, v| {
                    if i == k && !v.is_empty() {
                        taken = Some(v.remove(t.below(v.len())));
                    }
                });
                if let Some(x) = taken {
                    let total = lists(items, &mut |_, _| {});
                    let k = t.below(total);
                    lists(items, &mut |i, v| {
                        if i == k {
                            let at = t.below(v.len() + 1);
                            v.insert(at, x.clone());
                        }
                    });
                    Some("item moved")
                } else {
                    None
                }
            }
            10 | 11 => {
                let mut root = block(std::mem::take(items));
                let mut total = 0;
                expressions(&mut root, In::Root, 0, true, &mut |_, _, _| total += 1);
                if total > 0 {
                    let k = t.below(total);
                    let mut i = 0;
                    expressions(&mut root, In::Root, 0, true, &mut |x, _, _| {
                        if i == k {
                            let old = std::mem::replace(x, n(K::Unit));
                            *x = match t.below(3) {
                                0 => n(K::ErrProp(Box::new(old))),
                                1 => block(vec![risky(t, &pool), old]),
                                _ => block(vec![old, risky(t, &pool)]),
                            };
                        }
                        i += 1;
                    });
                }
                let K::Block(v) = root.k else { unreachable!() };
                *items = v;
                (total > 0).then_some("expression")
            }
            12 | 13 => edit_node(
                t,
                items,
                &|x| matches!(x.k, K::Fn(_) | K::OpDecl(..) | K::Lambda(..)),
                &mut |x, t| {
                    let ps = match &mut x.k {
                        K::Fn(d) => &mut d.params,
                        K::OpDecl(_, ps, _, _) => ps,
                        K::Lambda(ps, _) => ps,
                        _ => return,
                    };
                    match t.below(6) {
                        4 => {
                            let at = t.below(ps.len() + 1);
                            ps.insert(at, Param::new("self"));
                        }
                        0 | 1 if !ps.is_empty() => {
                            let p = ps[t.below(ps.len())].clone();
                            let at = t.below(ps.len() + 1);
                            ps.insert(at, p);
                        }
                        2 if !ps.is_empty() => {
                            let i = t.below(ps.len());
                            ps[i].ty = if ps[i].ty.is_some() { None } else { Some(Ty::new(&name(t, &pool), t.bool())) };
                        }
                        3 if !ps.is_empty() => {
                            ps.remove(0);
                        }
                        _ => ps.insert(0, Param::new("self")),
                    }
                },
            )
            .then_some("parameters"),
            14 => edit_node(t, items, &|x| matches!(&x.k, K::Fn(_) | K::OpDecl(..)), &mut |x, t| {
                let r = match &mut x.k {
                    K::Fn(d) => &mut d.ret,
                    K::OpDecl(_, _, r, _) => r,
                    _ => return,
                };
                *r = if r.is_some() { None } else { Some(Ty::new(&name(t, &pool), t.bool())) };
            })
            .then_some("result type"),
            15 => edit_node(t, items, &|x| matches!(x.k, K::Class(..)), &mut |x, t| {
                if let K::Class(_, _, b, v) = &mut x.k {
                    match t.below(4) {
                        0 | 1 => *b = if b.is_some() { None } else { Some(Box::new(id(&name(t, &pool)))) },
                        2 => v.push(fn_decl("new", vec![Param::new("self")], None, vec![])),
                        _ => v.push(n(K::OpDecl(Op::Add, vec![Param::new("o")], None, Box::new(block(vec![]))))),
                    }
                }
            })
            .then_some("class"),
            _ => edit_node(t, items, &is_ctor, &mut |x, t| {
                if let K::Fn(d) = &mut x.k {
                    if let K::Block(v) = &mut d.body.k {
                        match t.below(4) {
                            0 if !v.is_empty() => {
                                v.remove(0);
                            }
                            1 => v.push(ret(int(1))),
                            2 => v.insert(0, int(1)),
                            _ => d.ret = Some(Ty::new("A", false)),
                        }
                    }
                }
            })
            .then_some("constructor"),
        };
        if let Some(what) = done {
            return what;
        }
    }
    "nothing"
}
