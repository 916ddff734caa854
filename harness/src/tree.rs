//! Dumps the syntax tree of the code under test in the harness's canonical form.

use crate::ast::{float_label, Item};
use dice_core::span::Span;
use dice_syntax::*;

fn op(o: &BinaryOperator) -> &'static str {
    match o {
        BinaryOperator::Multiply => "*",
        BinaryOperator::Divide => "/",
        BinaryOperator::Remainder => "%",
        BinaryOperator::Add => "+",
        BinaryOperator::Subtract => "-",
        BinaryOperator::GreaterThan => ">",
        BinaryOperator::LessThan => "<",
        BinaryOperator::GreaterThanEquals => ">=",
        BinaryOperator::LessThanEquals => "<=",
        BinaryOperator::Equals => "==",
        BinaryOperator::NotEquals => "!=",
        BinaryOperator::LogicalAnd => "&&",
        BinaryOperator::LogicalOr => "||",
        BinaryOperator::RangeInclusive => "..=",
        BinaryOperator::RangeExclusive => "..",
        BinaryOperator::Coalesce => "??",
        BinaryOperator::Pipeline => "|>",
    }
}

fn over(o: &OverloadedOperator) -> &'static str {
    match o {
        OverloadedOperator::Multiply => "*",
        OverloadedOperator::Divide => "/",
        OverloadedOperator::Remainder => "%",
        OverloadedOperator::Add => "+",
        OverloadedOperator::Subtract => "-",
        OverloadedOperator::GreaterThan => ">",
        OverloadedOperator::LessThan => "<",
        OverloadedOperator::GreaterThanEquals => ">=",
        OverloadedOperator::LessThanEquals => "<=",
        OverloadedOperator::Equals => "==",
        OverloadedOperator::NotEquals => "!=",
        OverloadedOperator::RangeInclusive => "..=",
        OverloadedOperator::RangeExclusive => "..",
    }
}

struct D<'a> {
    t: &'a SyntaxTree,
    out: Vec<Item>,
}

pub fn dump(t: &SyntaxTree) -> Vec<Item> {
    let mut d = D { t, out: vec![] };
    d.node(0, t.get(t.root()));
    d.out
}

impl D<'_> {
    fn push(&mut self, depth: usize, label: String, s: Span) {
        self.out.push(Item {
            depth,
            label,
            span: Some((s.start, s.end)),
        });
    }
    fn synth(&mut self, depth: usize, label: impl Into<String>) {
        self.out.push(Item {
            depth,
            label: label.into(),
            span: None,
        });
    }
    fn ty(&mut self, d: usize, t: &TypeAnnotation) {
        self.push(d, format!("type nullable={}", t.is_nullable), t.span);
        self.push(d + 1, format!("name {}", t.name.identifier), t.name.span);
    }
    fn params(&mut self, d: usize, ps: &[FnArg]) {
        for p in ps {
            self.push(d, format!("param {}", p.name), p.span);
            if let Some(t) = &p.type_ {
                self.ty(d + 1, t);
            }
        }
    }
    fn ret(&mut self, d: usize, t: &Option<TypeAnnotation>) {
        if let Some(t) = t {
            self.synth(d, "returns");
            self.ty(d + 1, t);
        }
    }
    fn id(&mut self, d: usize, i: SyntaxNodeId) {
        // Through both ways of getting at a node.
        let child = self.t.child(i);
        let mut sub = D { t: &child, out: vec![] };
        std::mem::swap(&mut sub.out, &mut self.out);
        sub.node(d, child.get(child.root()));
        self.out = sub.out;
    }
    fn node(&mut self, d: usize, x: &SyntaxNode) {
        macro_rules! p {
            ($n:expr, $($a:tt)*) => { { let _ = &$n; self.push(d, format!($($a)*), x.span()) } };
        }
        match x {
            SyntaxNode::LitNull(n) => p!(n, "Null"),
            SyntaxNode::LitUnit(n) => p!(n, "Unit"),
            SyntaxNode::LitBool(n) => p!(n, "Bool {}", n.value),
            SyntaxNode::LitInt(n) => p!(n, "Int {}", n.value),
            SyntaxNode::LitFloat(n) => self.push(d, float_label(n.value), x.span()),
            SyntaxNode::LitString(n) => p!(n, "String {:?}", n.value),
            SyntaxNode::LitIdent(n) => p!(n, "Ident {}", n.identifier),
            SyntaxNode::LitList(n) => {
                p!(n, "List {}", n.items.len());
                n.items.iter().for_each(|c| self.id(d + 1, *c));
            }
            SyntaxNode::LitObject(n) => {
                p!(n, "Object {}", n.items.len());
                for (k, c) in &n.items {
                    self.synth(d + 1, format!("key {:?}", k));
                    self.id(d + 2, *c);
                }
            }
            SyntaxNode::LitAnonymousFn(n) => {
                p!(n, "Lambda");
                self.params(d + 1, &n.args);
                self.ret(d + 1, &n.return_);
                self.id(d + 1, n.body);
            }
            SyntaxNode::FieldAccess(n) => {
                p!(n, "Field {}", n.field);
                self.id(d + 1, n.expression);
            }
            SyntaxNode::SuperAccess(n) => p!(n, "SuperField {:?} {}", n.super_class, n.field),
            SyntaxNode::Index(n) => {
                p!(n, "Index");
                self.id(d + 1, n.expression);
                self.id(d + 1, n.index_expression);
            }
            SyntaxNode::Prefix(n) => {
                match n.operator {
                    UnaryOperator::Negate => p!(n, "Prefix Negate"),
                    UnaryOperator::Not => p!(n, "Prefix Not"),
                }
                self.id(d + 1, n.expression);
            }
            SyntaxNode::Binary(n) => {
                p!(n, "Binary {}", op(&n.operator));
                self.id(d + 1, n.lhs_expression);
                self.id(d + 1, n.rhs_expression);
            }
            SyntaxNode::Is(n) => {
                p!(n, "Is");
                self.id(d + 1, n.value);
                self.ty(d + 1, &n.type_);
            }
            SyntaxNode::NullPropagate(n) => {
                p!(n, "NullPropagate");
                self.id(d + 1, n.expression);
            }
            SyntaxNode::ErrorPropagate(n) => {
                p!(n, "ErrorPropagate");
                self.id(d + 1, n.expression);
            }
            SyntaxNode::Assignment(n) => {
                let o = match n.operator {
                    AssignmentOperator::Assignment => "=",
                    AssignmentOperator::MulAssignment => "*=",
                    AssignmentOperator::DivAssignment => "/=",
                    AssignmentOperator::AddAssignment => "+=",
                    AssignmentOperator::SubAssignment => "-=",
                };
                p!(n, "Assign {}", o);
                self.id(d + 1, n.lhs_expression);
                self.id(d + 1, n.rhs_expression);
            }
            SyntaxNode::FnCall(n) => {
                p!(n, "Call {}", n.args.len());
                self.id(d + 1, n.target);
                n.args.iter().for_each(|c| self.id(d + 1, *c));
            }
            SyntaxNode::SuperCall(n) => {
                p!(n, "SuperCall {}", n.args.len());
                n.args.iter().for_each(|c| self.id(d + 1, *c));
            }
            SyntaxNode::IfExpression(n) => {
                p!(n, "If");
                self.id(d + 1, n.condition);
                self.id(d + 1, n.primary);
                if let Some(c) = n.secondary {
                    self.synth(d + 1, "else");
                    self.id(d + 2, c);
                }
            }
            SyntaxNode::Block(n) => {
                p!(n, "Block");
                for c in &n.expressions {
                    self.synth(d + 1, "item");
                    self.id(d + 2, *c);
                }
                if let Some(c) = n.trailing_expression {
                    self.synth(d + 1, "trailing");
                    self.id(d + 2, c);
                }
            }
            SyntaxNode::Loop(n) => {
                p!(n, "Loop");
                self.id(d + 1, n.body);
            }
            SyntaxNode::WhileLoop(n) => {
                p!(n, "While");
                self.id(d + 1, n.condition);
                self.id(d + 1, n.body);
            }
            SyntaxNode::ForLoop(n) => {
                p!(n, "For {}", n.variable);
                self.id(d + 1, n.source);
                self.id(d + 1, n.body);
            }
            SyntaxNode::VarDecl(n) => {
                let (names, de) = match &n.kind {
                    VarDeclKind::Singular(s) => (vec![s.clone()], false),
                    VarDeclKind::Destructured(v) => (v.clone(), true),
                };
                p!(n, "Let {:?} destructured={} mutable={}", names, de, n.is_mutable);
                if let Some(t) = &n.type_ {
                    self.ty(d + 1, t);
                }
                self.id(d + 1, n.expr);
            }
            SyntaxNode::FnDecl(n) => {
                p!(n, "Fn");
                self.push(d + 1, format!("name {}", n.name.identifier), n.name.span);
                self.params(d + 1, &n.args);
                self.ret(d + 1, &n.return_);
                self.id(d + 1, n.body);
            }
            SyntaxNode::OpDecl(n) => {
                p!(n, "Op {}", over(&n.operator));
                self.params(d + 1, &n.args);
                self.ret(d + 1, &n.return_);
                self.id(d + 1, n.body);
            }
            SyntaxNode::ClassDecl(n) => {
                p!(n, "Class");
                self.push(d + 1, format!("name {}", n.name.identifier), n.name.span);
                if let Some(b) = n.base {
                    self.synth(d + 1, "base");
                    self.id(d + 2, b);
                }
                n.associated_items.iter().for_each(|c| self.id(d + 1, *c));
            }
            SyntaxNode::ImportDecl(n) => {
                p!(n, "Import {:?} {:?} {:?}", n.module_import, n.item_imports, n.relative_path)
            }
            SyntaxNode::ExportDecl(n) => {
                p!(n, "Export");
                self.id(d + 1, n.export);
            }
            SyntaxNode::Return(n) => {
                p!(n, "Return");
                if let Some(r) = n.result {
                    self.id(d + 1, r);
                }
            }
            SyntaxNode::Break(n) => p!(n, "Break"),
            SyntaxNode::Continue(n) => p!(n, "Continue"),
        }
    }
}
