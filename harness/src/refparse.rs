//! Reference parser: recursive descent over the reference lexer's tokens, following the language's
//! precedence table.  It decides acceptance, the tree, and the offending token of a rejected text.

use crate::ast::*;
use crate::lex::{lex, unescape, LTok, TK};

#[derive(Debug, Clone, PartialEq)]
pub struct PErr {
    /// Acceptable codes.
    pub codes: Vec<&'static str>,
    /// Index of the offending token (or of the first token of the offending construct); None at
    /// the end of the input.
    pub tok: Option<usize>,
}

pub struct P<'a> {
    text: &'a str,
    pub toks: Vec<LTok>,
    i: usize,
}

type R<X> = Result<X, PErr>;

pub struct Parsed {
    pub items: Vec<N>,
    pub spans: Vec<(usize, usize)>,
}

pub fn parse(text: &str) -> Result<Parsed, (PErr, Vec<LTok>)> {
    let mut p = P {
        text,
        toks: lex(text),
        i: 0,
    };
    match p.program() {
        Ok(items) => Ok(Parsed {
            items,
            spans: p.toks.iter().map(|t| (t.start, t.end)).collect(),
        }),
        Err(e) => Err((e, p.toks)),
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> TK {
        self.toks.get(self.i).map(|t| t.k).unwrap_or(TK::Eoi)
    }
    fn at(&self, s: &str) -> bool {
        matches!(self.peek(), TK::Sym(x) if x == s)
    }
    fn slice(&self, i: usize) -> &'a str {
        &self.text[self.toks[i].start..self.toks[i].end]
    }
    /// The current token is not acceptable here.
    fn unexpected<X>(&self, expression_expected: bool) -> R<X> {
        let codes = match self.peek() {
            TK::Bad(c) => vec![c],
            TK::Reserved if expression_expected => vec!["E1004"],
            TK::Reserved => vec!["E1000", "E1004"],
            TK::Error if expression_expected => vec!["E1003"],
            TK::Error => vec!["E1000", "E1003"],
            _ => vec!["E1000"],
        };
        Err(PErr {
            codes,
            tok: if self.i < self.toks.len() { Some(self.i) } else { None },
        })
    }
    fn expect(&mut self, s: &str) -> R<usize> {
        if self.at(s) {
            self.i += 1;
            Ok(self.i - 1)
        } else {
            self.unexpected(false)
        }
    }
    fn take(&mut self, s: &str) -> bool {
        if self.at(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> R<String> {
        if self.peek() == TK::Ident {
            self.i += 1;
            Ok(self.slice(self.i - 1).to_string())
        } else {
            self.unexpected(false)
        }
    }
    fn mk(&self, first: usize, k: K) -> N {
        N {
            k,
            first,
            last: self.i - 1,
        }
    }

    fn program(&mut self) -> R<Vec<N>> {
        let items = self.sequence()?;
        if self.i < self.toks.len() {
            return self.unexpected(false);
        }
        Ok(items)
    }

    fn sequence(&mut self) -> R<Vec<N>> {
        let mut items = Vec::new();
        while self.peek() != TK::Eoi && !self.at("}") {
            items.push(self.item()?);
            // A token that can neither continue an expression nor start an item is the next item's problem.
        }
        Ok(items)
    }

    fn block(&mut self) -> R<N> {
        let first = self.expect("{")?;
        let items = self.sequence()?;
        self.expect("}")?;
        Ok(self.mk(first, K::Block(items)))
    }

    fn item(&mut self) -> R<N> {
        let first = self.i;
        let k = match self.peek() {
            TK::Sym("loop") => {
                self.i += 1;
                K::Loop(Box::new(self.block()?))
            }
            TK::Sym("while") => {
                self.i += 1;
                let c = self.expr(1)?;
                K::While(Box::new(c), Box::new(self.block()?))
            }
            TK::Sym("for") => {
                self.i += 1;
                let v = self.ident()?;
                self.expect("in")?;
                let s = self.expr(1)?;
                K::For(v, Box::new(s), Box::new(self.block()?))
            }
            TK::Sym("let") => return self.let_(),
            TK::Sym("fn") => return self.fn_(),
            TK::Sym("op") => return self.op_(),
            TK::Sym("class") => return self.class_(),
            TK::Sym("import") => {
                self.i += 1;
                let mut module = None;
                if self.take("*") {
                    self.expect("as")?;
                    module = Some(self.ident()?);
                    self.take(",");
                }
                let items = if self.at("{") { self.names()? } else { vec![] };
                if matches!(self.peek(), TK::Bad(_)) && items.is_empty() && self.i == first + 1 {
                    return self.unexpected(false);
                }
                if module.is_none() && items.is_empty() {
                    return Err(PErr {
                        codes: vec!["E2505"],
                        tok: Some(first),
                    });
                }
                self.expect("from")?;
                if self.peek() != TK::Str {
                    return self.unexpected(false);
                }
                self.i += 1;
                K::Import(module, items, self.slice(self.i - 1).to_string())
            }
            TK::Sym("export") => {
                self.i += 1;
                let f = self.i;
                let inner = match self.peek() {
                    TK::Sym("let") => self.let_()?,
                    TK::Sym("fn") => self.fn_()?,
                    TK::Sym("class") => self.class_()?,
                    TK::Ident => {
                        let s = self.ident()?;
                        self.mk(f, K::Ident(s))
                    }
                    _ => return self.unexpected(false),
                };
                K::Export(Box::new(inner))
            }
            TK::Sym("return") => {
                self.i += 1;
                if self.at("}") {
                    K::Return(None)
                } else {
                    K::Return(Some(Box::new(self.expr(1)?)))
                }
            }
            TK::Sym("break") => {
                self.i += 1;
                K::Break
            }
            TK::Sym("continue") => {
                self.i += 1;
                K::Continue
            }
            _ => return self.expr(1),
        };
        Ok(self.mk(first, k))
    }

    fn let_(&mut self) -> R<N> {
        let first = self.expect("let")?;
        let mu = self.take("mut");
        let (names, de) = if self.at("{") {
            (self.names()?, true)
        } else {
            (vec![self.ident()?], false)
        };
        self.expect("=")?;
        let v = self.expr(1)?;
        Ok(self.mk(first, K::Let(names, de, mu, Box::new(v))))
    }

    /// `open item, item, ... close` with an optional comma at the end.
    fn sep<X>(&mut self, close: &str, mut f: impl FnMut(&mut Self) -> R<X>) -> R<Vec<X>> {
        let mut out = Vec::new();
        while !self.at(close) {
            out.push(f(self)?);
            if !self.take(",") && !self.at(close) {
                return self.unexpected(false);
            }
        }
        self.i += 1;
        Ok(out)
    }

    fn names(&mut self) -> R<Vec<String>> {
        self.expect("{")?;
        self.sep("}", |p| p.ident())
    }

    fn ty(&mut self, delim: &str) -> R<Ty> {
        let first = self.expect(delim)?;
        let name_tok = self.i;
        let name = self.ident()?;
        let nullable = self.take("?");
        Ok(Ty {
            name,
            nullable,
            first,
            name_tok,
            last: self.i - 1,
        })
    }

    fn params(&mut self, open: &str, close: &str) -> R<Vec<Param>> {
        self.expect(open)?;
        self.sep(close, |p| {
            let first = p.i;
            let name = p.ident()?;
            let ty = if p.at(":") { Some(p.ty(":")?) } else { None };
            Ok(Param {
                name,
                ty,
                first,
                last: p.i - 1,
            })
        })
    }

    fn too_many(&self, count: usize, first: usize) -> R<()> {
        if count > 255 {
            Err(PErr {
                codes: vec!["E1005"],
                tok: Some(first),
            })
        } else {
            Ok(())
        }
    }

    fn fn_(&mut self) -> R<N> {
        let first = self.expect("fn")?;
        let name_tok = self.i;
        let name = self.ident()?;
        let params = self.params("(", ")")?;
        self.too_many(params.len(), first)?;
        let ret = if self.at("->") { Some(self.ty("->")?) } else { None };
        let body = Box::new(self.block()?);
        Ok(self.mk(
            first,
            K::Fn(FnD {
                name,
                name_tok,
                params,
                ret,
                body,
            }),
        ))
    }

    fn op_(&mut self) -> R<N> {
        let first = self.expect("op")?;
        let op = OVERLOADABLE.iter().find(|o| self.at(o.sym()));
        let Some(op) = op else {
            return self.unexpected(false);
        };
        self.i += 1;
        let params = self.params("(", ")")?;
        self.too_many(params.len(), first)?;
        let ret = if self.at("->") { Some(self.ty("->")?) } else { None };
        let body = Box::new(self.block()?);
        Ok(self.mk(first, K::OpDecl(*op, params, ret, body)))
    }

    fn class_(&mut self) -> R<N> {
        let first = self.expect("class")?;
        let name_tok = self.i;
        let name = self.ident()?;
        let base = if self.take(":") {
            Some(Box::new(self.expr(1)?))
        } else {
            None
        };
        self.expect("{")?;
        let mut items = Vec::new();
        while !self.at("}") {
            items.push(match self.peek() {
                TK::Sym("fn") => self.fn_()?,
                TK::Sym("op") => self.op_()?,
                _ => return self.unexpected(false),
            });
        }
        self.i += 1;
        Ok(self.mk(first, K::Class(name, name_tok, base, items)))
    }

    fn if_(&mut self) -> R<N> {
        let first = self.expect("if")?;
        let c = self.expr(1)?;
        let b = self.block()?;
        let e = if self.take("else") {
            Some(Box::new(if self.at("if") { self.if_()? } else { self.block()? }))
        } else {
            None
        };
        Ok(self.mk(first, K::If(Box::new(c), Box::new(b), e)))
    }

    fn args(&mut self) -> R<Vec<N>> {
        self.expect("(")?;
        self.sep(")", |p| p.expr(1))
    }

    fn operand(&mut self, full: bool) -> R<N> {
        let first = self.i;
        let tok = self.peek();
        let k = match tok {
            TK::Int => {
                let s = self.slice(first);
                match s.parse::<i64>() {
                    Ok(v) => {
                        self.i += 1;
                        K::Int(s.to_string(), v)
                    }
                    Err(_) => {
                        return Err(PErr {
                            codes: vec!["E1007"],
                            tok: Some(first),
                        })
                    }
                }
            }
            TK::Float => {
                self.i += 1;
                let s = self.slice(first);
                K::Float(s.to_string(), s.parse().unwrap())
            }
            TK::Str => {
                self.i += 1;
                let s = self.slice(first);
                K::Str(s.to_string(), unescape(s))
            }
            TK::Sym("null") => {
                self.i += 1;
                K::Null
            }
            TK::Sym("true") => {
                self.i += 1;
                K::Bool(true)
            }
            TK::Sym("false") => {
                self.i += 1;
                K::Bool(false)
            }
            TK::Ident => {
                let s = self.ident()?;
                let t = self.mk(first, K::Ident(s));
                return self.assignment(t, first, full);
            }
            TK::Sym("if") => return self.if_(),
            TK::Sym("{") => return self.block(),
            TK::Sym("#") => {
                self.i += 1;
                self.expect("{")?;
                let items = self.sep("}", |p| {
                    let (sp, key) = match p.peek() {
                        TK::Str => (p.slice(p.i).to_string(), unescape(p.slice(p.i))),
                        TK::Int | TK::Ident => (p.slice(p.i).to_string(), p.slice(p.i).to_string()),
                        _ => return p.unexpected(false),
                    };
                    p.i += 1;
                    p.expect(":")?;
                    Ok((sp, key, p.expr(1)?))
                })?;
                K::Object(items)
            }
            TK::Sym("[") => {
                self.i += 1;
                K::List(self.sep("]", |p| p.expr(1))?)
            }
            TK::Sym("super") => {
                self.i += 1;
                if self.at("(") {
                    let args = self.args()?;
                    self.too_many(args.len(), first)?;
                    K::SuperCall(args)
                } else if self.at(".") || self.at("[") {
                    let mut class = None;
                    if self.take("[") {
                        class = Some(self.ident()?);
                        self.expect("]")?;
                    }
                    self.expect(".")?;
                    K::SuperField(class, self.ident()?)
                } else {
                    return self.unexpected(false);
                }
            }
            TK::Sym("(") => {
                self.i += 1;
                if self.take(")") {
                    K::Unit
                } else {
                    let e = self.expr(1)?;
                    self.expect(")")?;
                    return Ok(e);
                }
            }
            TK::Sym("|") => {
                let params = self.params("|", "|")?;
                self.too_many(params.len(), first)?;
                let b = self.expr(1)?;
                K::Lambda(params, Box::new(b))
            }
            TK::Sym(s @ ("-" | "!")) => {
                self.i += 1;
                let e = Box::new(self.expr(10)?);
                if s == "-" {
                    K::Neg(e)
                } else {
                    K::Not(e)
                }
            }
            _ => return self.unexpected(true),
        };
        Ok(self.mk(first, k))
    }

    fn assignment(&mut self, target: N, first: usize, full: bool) -> R<N> {
        let op = match self.peek() {
            TK::Sym("=") => AOp::Set,
            TK::Sym("*=") => AOp::Mul,
            TK::Sym("/=") => AOp::Div,
            TK::Sym("+=") => AOp::Add,
            TK::Sym("-=") => AOp::Sub,
            _ => return Ok(target),
        };
        if !full {
            return Ok(target);
        }
        self.i += 1;
        let v = self.expr(1)?;
        Ok(self.mk(first, K::Assign(op, Box::new(target), Box::new(v))))
    }

    /// An expression whose operators all bind at least as tightly as `min`.
    fn expr(&mut self, min: u8) -> R<N> {
        let first = self.i;
        let full = min <= 1;
        let mut lhs = self.operand(full)?;
        loop {
            let op = match self.peek() {
                TK::Sym("?") if min <= 11 => {
                    self.i += 1;
                    lhs = self.mk(first, K::NullProp(Box::new(lhs)));
                    continue;
                }
                TK::Sym("!!") if min <= 11 => {
                    self.i += 1;
                    lhs = self.mk(first, K::ErrProp(Box::new(lhs)));
                    continue;
                }
                TK::Sym(".") if min <= 12 => {
                    self.i += 1;
                    let f = self.ident()?;
                    lhs = self.mk(first, K::Field(Box::new(lhs), f));
                    lhs = self.assignment(lhs, first, full)?;
                    continue;
                }
                TK::Sym("[") if min <= 12 => {
                    self.i += 1;
                    let x = self.expr(1)?;
                    self.expect("]")?;
                    lhs = self.mk(first, K::Index(Box::new(lhs), Box::new(x)));
                    lhs = self.assignment(lhs, first, full)?;
                    continue;
                }
                TK::Sym("(") if min <= 12 => {
                    let args = self.args()?;
                    self.too_many(args.len(), first)?;
                    lhs = self.mk(first, K::Call(Box::new(lhs), args));
                    continue;
                }
                TK::Raw if min <= 12 => {
                    let s = self.slice(self.i);
                    let v = s[1..s.len() - 1].to_string();
                    let f = self.i;
                    self.i += 1;
                    let arg = self.mk(f, K::Raw(v));
                    lhs = self.mk(first, K::Call(Box::new(lhs), vec![arg]));
                    continue;
                }
                TK::Sym("is") if min <= 7 => {
                    let t = self.ty("is")?;
                    lhs = self.mk(first, K::Is(Box::new(lhs), t));
                    continue;
                }
                TK::Sym("or") if min <= 3 => {
                    self.i += 1;
                    let v = self.ident()?;
                    let b = self.block()?;
                    lhs = self.mk(first, K::ErrOr(Box::new(lhs), v, Box::new(b)));
                    continue;
                }
                TK::Sym("|") => Op::Or,
                TK::Sym(s) => match ALL_OPS.iter().find(|o| o.sym() == s) {
                    Some(o) => *o,
                    None => break,
                },
                // Nothing can follow here but an error: report the token for what it is.
                TK::Reserved | TK::Error | TK::Bad(_) => return self.unexpected(true),
                _ => break,
            };
            if op.level() < min {
                break;
            }
            self.i += 1;
            if op == Op::Or {
                self.expect("|")?;
            }
            let rhs = self.expr(op.level() + 1)?;
            lhs = self.mk(first, K::Bin(op, Box::new(lhs), Box::new(rhs)));
        }
        Ok(lhs)
    }
}
