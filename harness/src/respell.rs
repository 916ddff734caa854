//! Gives the names of a program other spellings, everywhere at once: variables, fields, keys,
//! methods, classes and what modules export.  The meaning stays the reference interpreter's, who
//! gets the renamed tree, so nothing is assumed but that names are only names.

use std::collections::{BTreeMap, BTreeSet};

use crate::ast::*;
use crate::lex;
use crate::tape::Tape;
use crate::vm::PRELUDE_SRC;

thread_local! {
    static KEPT: BTreeSet<String> = {
        let mut s: BTreeSet<String> = ["emit", "panic", "push", "pop", "length", "iter", "next", "is_done", "value", "self", "new", "super"]
            .iter()
            .chain(crate::rt::VALUE_CLASSES)
            .chain(&["Any", "Module", "Range", "RangeInclusive", "Result", "Ok", "Err", "roll"])
            .map(|s| s.to_string())
            .collect();
        for t in lex::lex(PRELUDE_SRC) {
            if t.k == lex::TK::Ident {
                s.insert(PRELUDE_SRC[t.start..t.end].to_string());
            }
        }
        s
    };
}

/// Names that mean something as members, but nothing as variables.
const MEMBERS: &[&str] = &["push", "pop", "length", "iter", "next", "is_done", "value", "is_ok", "result", "start", "end", "map", "new"];
/// Beginnings and wholes of keywords and of global names.
const NEAR: &[&str] = &[
    "i", "f", "o", "or_", "ors", "iff", "if_", "elsee", "whilee", "fo", "for_", "fnn", "lett", "le", "mu", "muts", "inn", "i_s", "iss",
    "opp", "classes_", "importt", "as_", "fromm", "exports_", "supers", "selfs", "sel", "Self", "Int_", "Results", "Nul", "nulls", "True", "trues",
    "falsy", "breaks", "returned", "await_", "typed_", "matches_", "news", "New", "tries", "it", "This", "this", "print_", "export_", "A", "Z9",
];

/// `ident` for each name that a program gives to something, `member` for each it uses as a member.
fn names(x: &mut N, ident: &mut BTreeSet<String>, member: &mut BTreeSet<String>) {
    x.walk_mut(&mut |y| match &y.k {
        K::Ident(s) | K::For(s, ..) | K::ErrOr(_, s, _) => {
            ident.insert(s.clone());
        }
        K::Object(v) => member.extend(v.iter().map(|x| x.1.clone())),
        K::Field(_, s) => {
            member.insert(s.clone());
        }
        K::SuperField(c, s) => {
            ident.extend(c.iter().cloned());
            member.insert(s.clone());
        }
        K::Lambda(ps, _) | K::OpDecl(_, ps, ..) => ident.extend(ps.iter().map(|p| p.name.clone())),
        K::Let(v, d, ..) => {
            ident.extend(v.iter().cloned());
            if *d {
                member.extend(v.iter().cloned());
            }
        }
        K::Fn(d) => {
            ident.insert(d.name.clone());
            ident.extend(d.params.iter().map(|p| p.name.clone()));
        }
        K::Class(s, _, _, items) => {
            ident.insert(s.clone());
            for i in items {
                if let K::Fn(d) = &i.k {
                    member.insert(d.name.clone());
                }
            }
        }
        K::Import(m, v, _) => {
            ident.extend(m.iter().cloned());
            ident.extend(v.iter().cloned());
            member.extend(v.iter().cloned());
        }
        K::Export(e) => match &e.k {
            K::Ident(s) | K::Class(s, ..) => {
                member.insert(s.clone());
            }
            K::Let(v, ..) => member.extend(v.iter().cloned()),
            K::Fn(d) => {
                member.insert(d.name.clone());
            }
            _ => {}
        },
        K::Str(_, s) => {
            // Perhaps a key.
            if !s.is_empty() && s.len() < 6 && s.bytes().all(|c| c.is_ascii_alphanumeric()) {
                member.insert(s.clone());
            }
        }
        _ => {}
    });
}

pub fn respell(t: &mut Tape, programs: &mut [&mut Vec<N>]) -> bool {
    if !t.chance(1, 3) {
        return false;
    }
    let (mut ident, mut member) = (BTreeSet::new(), BTreeSet::new());
    for p in programs.iter_mut() {
        for x in p.iter_mut() {
            names(x, &mut ident, &mut member);
        }
    }
    let kept: BTreeSet<String> = KEPT.with(|k| k.clone());
    let style = t.below(8);
    let mut used: BTreeSet<String> = kept.clone();
    used.extend(ident.iter().chain(&member).cloned());
    let mut map = BTreeMap::new();
    for (i, s) in ident.union(&member).enumerate() {
        if kept.contains(s) || s.is_empty() || !s.bytes().next().map_or(false, |c| c == b'_' || c.is_ascii_alphabetic()) {
            continue;
        }
        let way = if style == 7 { t.below(7) } else { style };
        let new = match way {
            0 => format!("_{}", s),
            1 => format!("{}_", s),
            2 => {
                let mut c = s.chars();
                let first = c.next().unwrap();
                let first = if first.is_ascii_lowercase() { first.to_ascii_uppercase() } else { first.to_ascii_lowercase() };
                format!("{}{}", first, c.as_str())
            }
            3 => {
                if member.contains(s) {
                    t.pick(NEAR).to_string()
                } else {
                    t.pick(MEMBERS).to_string()
                }
            }
            4 => t.pick(NEAR).to_string(),
            5 => "_".repeat(i + 1),
            _ => format!("{}_{}", "very_long_name_of_a_thing".repeat(1 + t.below(12)), i),
        };
        let fresh = !used.contains(&new) || (MEMBERS.contains(&new.as_str()) && !member.contains(s) && !ident.contains(&new) && !map.values().any(|x| *x == new));
        if !fresh || lex::KEYWORDS.contains(&new.as_str()) || lex::RESERVED.contains(&new.as_str()) {
            continue;
        }
        used.insert(new.clone());
        map.insert(s.clone(), new);
    }
    for p in programs.iter_mut() {
        for x in p.iter_mut() {
            apply(x, &map);
        }
    }
    !map.is_empty()
}

fn apply(x: &mut N, map: &BTreeMap<String, String>) {
    let re = |s: &mut String| {
        if let Some(new) = map.get(s) {
            *s = new.clone()
        }
    };
    let ty = |t: &mut Option<Ty>| {
        if let Some(t) = t {
            re(&mut t.name)
        }
    };
    let params = |ps: &mut Vec<Param>| {
        for p in ps {
            re(&mut p.name);
            ty(&mut p.ty);
        }
    };
    x.walk_mut(&mut |y| match &mut y.k {
        K::Ident(s) | K::For(s, ..) | K::ErrOr(_, s, _) | K::Field(_, s) => re(s),
        K::SuperField(c, s) => {
            c.iter_mut().for_each(re);
            re(s)
        }
        K::Object(v) => {
            for (spelled, key, _) in v {
                if let Some(new) = map.get(key) {
                    *spelled = if spelled.starts_with('"') { spell(new) } else { new.clone() };
                    *key = new.clone();
                }
            }
        }
        K::Str(spelled, s) => {
            if let Some(new) = map.get(s) {
                *spelled = spell(new);
                *s = new.clone();
            }
        }
        K::Let(v, ..) => v.iter_mut().for_each(re),
        K::Fn(d) => {
            re(&mut d.name);
            ty(&mut d.ret);
            params(&mut d.params);
        }
        K::OpDecl(_, ps, r, _) => {
            ty(r);
            params(ps);
        }
        K::Lambda(ps, _) => params(ps),
        K::Class(s, ..) => re(s),
        K::Is(_, t) => re(&mut t.name),
        K::Import(m, v, _) => {
            m.iter_mut().for_each(re);
            v.iter_mut().for_each(re);
        }
        _ => {}
    });
}
