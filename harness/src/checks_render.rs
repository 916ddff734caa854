//! C12: how errors are rendered.

use std::collections::BTreeSet;

use crate::checks_code::any_text;
use crate::checks_static::judged;
use crate::checks_syn::{excerpt, fail, gen_lines, mutated_text, random_text};
use crate::ast::pretty;
use crate::runner::{guard, Check, Cx, Res, Suite};
use crate::tape::Tape;
use crate::util::*;
use dice_core::error::context::{self, Context, ContextKind};
use dice_core::error::fmt::{ErrorFormatter, HumanReadableErrorFormatter};
use dice_core::error::localization::Locale;
use dice_core::error::tag::Tags;
use dice_core::error::trace::ErrorTrace;
use dice_core::error::{codes, Error, ResultExt};
use dice_core::source::{Source, SourceKind};
use dice_core::span::Span;

// Every code, the name of the error, and its message with its parameters.
pub static CATALOGUE: &[(&str, &str, &str)] = &[
    (codes::UNEXPECTED_TOKEN, "UNEXPECTED_TOKEN", "Encountered unexpected token during parsing. Found: {$actual}, Expected: {$expected}"),
    (codes::INVALID_ESCAPE_SEQUENCE, "INVALID_ESCAPE_SEQUENCE", "Encountered unknown escape sequence '{$sequence}'."),
    (codes::UNTERMINATED_STRING, "UNTERMINATED_STRING", "Unterminated string encountered."),
    (codes::UNRECOGNIZED_INPUT, "UNRECOGNIZED_INPUT", "Expected valid expression. Found invalid token: {$input}"),
    (codes::RESERVED_KEYWORD, "RESERVED_KEYWORD", "Expected valid expression. Found reserved keyword: {$input}"),
    (codes::FUNCTION_HAS_TOO_MANY_ARGUMENTS, "FUNCTION_HAS_TOO_MANY_ARGUMENTS", "Function has too many arguments (max: 255)."),
    (codes::OPERATOR_HAS_INCORRECT_ARGUMENT_COUNT, "OPERATOR_HAS_INCORRECT_ARGUMENT_COUNT", "Operator has an incorrect number of arguments (1 for unary operators and 2 for binary)."),
    (codes::INVALID_INTEGER_VALUE, "INVALID_INTEGER_VALUE", "Invalid integer value: {$message}"),
    (codes::INVALID_FLOAT_VALUE, "INVALID_FLOAT_VALUE", "Invalid float value: {$message}"),
    (codes::UNTERMINATED_BACKSLASH_ARG, "UNTERMINATED_BACKSLASH_ARG", "Unterminated backslash argument encountered."),
    (codes::INTERNAL_COMPILER_ERROR, "INTERNAL_COMPILER_ERROR", "Internal Compiler Error (please report this as a bug with code to reproduce the issue)."),
    (codes::TOO_MANY_UPVALUES, "TOO_MANY_UPVALUES", "The maximum number of upvalues (256) has been exceeded for this compilation unit."),
    (codes::TOO_MANY_CONSTANTS, "TOO_MANY_CONSTANTS", "The maximum number of constants (256) has been exceeded for this compilation unit."),
    (codes::TOO_MANY_LOCALS, "TOO_MANY_LOCALS", "The maximum number of local variables (256) has been exceeded for this function."),
    (codes::TOO_MANY_LIST_ITEMS, "TOO_MANY_LIST_ITEMS", "List has too many items (max: 255)."),
    (codes::JUMP_TOO_LARGE, "JUMP_TOO_LARGE", "The code is too large to be jumped over."),
    (codes::NEW_METHOD_CANNOT_HAVE_RETURN_TYPE, "NEW_METHOD_CANNOT_HAVE_RETURN_TYPE", "The new method cannot specify a return type."),
    (codes::NEW_METHOD_MUST_HAVE_RECEIVER, "NEW_METHOD_MUST_HAVE_RECEIVER", "The new method must specify self as the first parameter."),
    (codes::OPERATOR_MUST_HAVE_RECEIVER, "OPERATOR_MUST_HAVE_RECEIVER", "Class operators must specify self as the first parameter."),
    (codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, "NEW_MUST_CALL_SUPER_FROM_SUBCLASS", "The new method must call super first when deriving from another class."),
    (codes::NEW_RETURN_CANNOT_HAVE_EXPRESSION, "NEW_RETURN_CANNOT_HAVE_EXPRESSION", "The new method cannot return a value."),
    (codes::INVALID_SUPER_CALL, "INVALID_SUPER_CALL", "The 'super' keyword can only be used inside of methods of classes."),
    (codes::METHOD_RECEIVER_CANNOT_HAVE_TYPE, "METHOD_RECEIVER_CANNOT_HAVE_TYPE", "The self parameter of methods cannot specify a type."),
    (codes::FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS, "FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS", "Function parameters must have unique names. (TODO: Include duplicate names)"),
    (codes::CLASS_ALREADY_DECLARED, "CLASS_ALREADY_DECLARED", "The class '{$name}' is already defined in this scope."),
    (codes::FUNCTION_ALREADY_DECLARED, "FUNCTION_ALREADY_DECLARED", "The function '{$name}' is already defined in this scope."),
    (codes::INVALID_ASSIGNMENT_TARGET, "INVALID_ASSIGNMENT_TARGET", "Cannot assign value to the left hand side expression."),
    (codes::VARIABLE_NOT_DECLARED, "VARIABLE_NOT_DECLARED", "The variable '{$name}' is not declared."),
    (codes::VARIABLE_NOT_INITIALIZED, "VARIABLE_NOT_INITIALIZED", "The variable '{$name}' is not initialized."),
    (codes::CANNOT_REASSIGN_IMMUTABLE_VARIABLE, "CANNOT_REASSIGN_IMMUTABLE_VARIABLE", "Cannot reassign the immutable variabe '{$name}'."),
    (codes::INVALID_RETURN_USAGE, "INVALID_RETURN_USAGE", "The 'return' keyword can only be used inside of functions or methods."),
    (codes::INVALID_BREAK_USAGE, "INVALID_BREAK_USAGE", "The 'break' keyword can only be used inside of loops."),
    (codes::INVALID_CONTINUE_USAGE, "INVALID_CONTINUE_USAGE", "The 'continue' keyword can only be used inside of loops."),
    (codes::INVALID_ERROR_PROPAGATE_USAGE, "INVALID_ERROR_PROPAGATE_USAGE", "The error propagate operator '!!' can only be used inside of functions or methods."),
    (codes::INVALID_EXPORT_USAGE, "INVALID_EXPORT_USAGE", "Invalid usage of the 'export' keyword."),
    (codes::INVALID_IMPORT_USAGE, "INVALID_IMPORT_USAGE", "Invalid usage of the 'import' keyword."),
    (codes::INVALID_BOOL_CONVERSION, "INVALID_BOOL_CONVERSION", "The value cannot be converted to a boolean."),
    (codes::INVALID_INT_CONVERSION, "INVALID_INT_CONVERSION", "The value cannot be converted to an int."),
    (codes::INVALID_FLOAT_CONVERSION, "INVALID_FLOAT_CONVERSION", "The value cannot be converted fo a float."),
    (codes::INVALID_ARRAY_CONVERSION, "INVALID_ARRAY_CONVERSION", "The value cannot be converted to an array."),
    (codes::INVALID_STRING_CONVERSION, "INVALID_STRING_CONVERSION", "The value cannot be converted to a string."),
    (codes::INVALID_SYMBOL_CONVERSION, "INVALID_SYMBOL_CONVERSION", "The value cannot be converted to a symbol."),
    (codes::INVALID_OBJECT_CONVERSION, "INVALID_OBJECT_CONVERSION", "The value cannot be converted to an object."),
    (codes::INVALID_CLASS_CONVERSION, "INVALID_CLASS_CONVERSION", "The value cannot be converted to a class."),
    (codes::TYPE_ASSERTION_FAILURE, "TYPE_ASSERTION_FAILURE", "Type assertion failed due to mismatching types."),
    (codes::TYPE_ASSERTION_NULLABILITY_FAILURE, "TYPE_ASSERTION_NULLABILITY_FAILURE", "Type assertion failed due to unexpected null value."),
    (codes::TYPE_ASSERTION_BOOL_FAILURE, "TYPE_ASSERTION_BOOL_FAILURE", "Type assertion failed due to the target value not being a boolean type."),
    (codes::TYPE_ASSERTION_NUMBER_FAILURE, "TYPE_ASSERTION_NUMBER_FAILURE", "Type assertion failed due to the target value not being a numeric type."),
    (codes::TYPE_ASSERTION_FUNCTION_FAILURE, "TYPE_ASSERTION_FUNCTION_FAILURE", "Type assertion failed due to the target value not being a function type."),
    (codes::TYPE_ASSERTION_SUPER_FAILURE, "TYPE_ASSERTION_SUPER_FAILURE", "Type assertion failed due to encountering invalid super type."),
    (codes::DIVIDE_BY_ZERO, "DIVIDE_BY_ZERO", "Attempted to divide by zero."),
    (codes::GLOBAL_VARIABLE_ALREADY_DEFINED, "GLOBAL_VARIABLE_ALREADY_DEFINED", "Global variable {$name} cannot be redefined."),
    (codes::GLOBAL_VARIABLE_UNDEFINED, "GLOBAL_VARIABLE_UNDEFINED", "Global variable {$name} could not be found."),
    (codes::GLOBAL_OPERATOR_UNDEFINED, "GLOBAL_OPERATOR_UNDEFINED", "Global operator {$name} could not be found."),
    (codes::NEW_FUNCTION_CANNOT_BE_ACCESS_DIRECTLY, "NEW_FUNCTION_CANNOT_BE_ACCESS_DIRECTLY", "The 'new' function cannot be accessed directly on class instances.  To construct a new class, use the class name as a function."),
    (codes::CLASS_MUST_HAVE_NEW_IF_SUPER_HAS_NEW, "CLASS_MUST_HAVE_NEW_IF_SUPER_HAS_NEW", "If a super class has a 'new' function the subclass must also have a 'new' function."),
    (codes::CLASS_CANNOT_INHERIT_VALUE_TYPE, "CLASS_CANNOT_INHERIT_VALUE_TYPE", "Classes cannot inherit from value types."),
    (codes::PANIC, "PANIC", "A panic has occurred. {$message}"),
    (codes::IO_ERROR, "IO_ERROR", "IO error occurred. {$message}"),
    (codes::INVALID_SCRIPT_LOCATION, "INVALID_SCRIPT_LOCATION", "Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}"),
    (codes::MODULE_ALREADY_EXISTS, "MODULE_ALREADY_EXISTS", "The module is already loaded."),
    (codes::GLOBAL_ALREADY_EXISTS, "GLOBAL_ALREADY_EXISTS", "The global variable is already defined."),
];

static CONTEXTS: &[(&str, &str, &str)] = &[
    (context::INVALID_INDEX_TYPES, "INVALID_INDEX_TYPES", "The index operator only accepts integers, strings, or symbols."),
    (context::MODULE_LOAD_ERROR, "MODULE_LOAD_ERROR", "This issue occurred while trying to load the module \"{$module}\"."),
    (
        context::EXPORT_ONLY_ALLOWED_IN_MODULES,
        "EXPORT_ONLY_ALLOWED_IN_MODULES",
        "The 'export' keyword can only be used inside modules. Export used in the context of: {$kind}.",
    ),
    (
        context::EXPORT_ONLY_ALLOWED_IN_TOP_LEVEL_SCOPE,
        "EXPORT_ONLY_ALLOWED_IN_TOP_LEVEL_SCOPE",
        "The 'export' keyword can only be used in the top level scope of a module.",
    ),
    (
        context::IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED,
        "IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED",
        "The 'import' keyword requires either a scoped namespace or list of import items.",
    ),
    (
        context::IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP,
        "IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP",
        "Try using 'import * as module from \"module.dm\"' or 'import { item } from \"module.dm\"'",
    ),
    (context::MISMATCHED_TYPE_ASSERTIONS, "MISMATCHED_TYPE_ASSERTIONS", "Expected: {$expected}, Found: {$actual}"),
];

fn params(template: &'static str) -> Vec<&'static str> {
    let mut out = Vec::new();
    let mut rest = template;
    while let Some(i) = rest.find("{$") {
        let end = rest[i..].find('}').unwrap() + i;
        out.push(&rest[i + 2..end]);
        rest = &rest[end..];
    }
    out
}

fn words(s: &str) -> BTreeSet<String> {
    s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_lowercase()).collect()
}

fn likeness(a: &BTreeSet<String>, b: &BTreeSet<String>) -> f64 {
    let both = a.intersection(b).count() as f64;
    let any = a.union(b).count() as f64;
    if any == 0.0 {
        1.0
    } else {
        both / any
    }
}

fn tags(ps: &[&'static str], values: &[String]) -> Tags {
    let mut t = Tags::new();
    for (p, v) in ps.iter().zip(values) {
        t.push(p, v.clone());
    }
    t
}

fn marker(i: usize) -> String {
    format!("\u{27e6}{}\u{27e7}", i)
}

/// What an error's message renders to, without its code.
fn message(code: &'static str, t: Tags) -> Result<String, String> {
    let d = guard(|| debug(&Error::new(code).with_tags(t)))?;
    let prefix = format!("error[{}]: ", code);
    match d.strip_prefix(prefix.as_str()).and_then(|m| m.strip_suffix('\n')) {
        Some(m) => Ok(m.to_string()),
        None => Err(format!("rendering of {}: {:?}", code, d)),
    }
}

/// What a note or help line renders to, without its heading.
fn note(id: &'static str, kind: ContextKind, t: Tags) -> Result<String, String> {
    let bare = guard(|| display(&Error::new(codes::UNTERMINATED_STRING)))?;
    let d = guard(|| display(&Error::new(codes::UNTERMINATED_STRING).push_context(Context::new(id, kind).with_tags(t))))?;
    let heading = match kind {
        ContextKind::Note => "note: ",
        ContextKind::Help => "help: ",
    };
    match d.strip_prefix(bare.as_str()).and_then(|m| m.strip_prefix(heading)).and_then(|m| m.strip_suffix('\n')) {
        Some(m) => Ok(m.to_string()),
        None => Err(format!("rendering of context {}: {:?}", id, d)),
    }
}

fn fill(template: &str, values: &[String]) -> String {
    let mut out = String::new();
    let mut rest = template;
    'next: while !rest.is_empty() {
        for (i, v) in values.iter().enumerate() {
            if let Some(r) = rest.strip_prefix(marker(i).as_str()) {
                out.push_str(v);
                rest = r;
                continue 'next;
            }
        }
        let c = rest.chars().next().unwrap();
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}

/// The message with markers for its parameters must be complete and be the message of this error.
fn template(code: &'static str, of: usize, table: &[(&'static str, &'static str, &'static str)], shown: Result<String, String>) -> Result<String, String> {
    let (_, name, frozen) = table[of];
    let shown = shown?;
    let ps = params(frozen);
    if shown.trim().is_empty() {
        return Err(format!("{} ({}) has no message", name, code));
    }
    if shown.contains("{$") || shown.contains("{\"") || shown.contains("Unknown localization") {
        return Err(format!("{} ({}) leaves a placeholder: {:?}", name, code, shown));
    }
    let mut bare = shown.clone();
    for i in 0..ps.len() {
        if !shown.contains(&marker(i)) {
            return Err(format!("{} ({}) does not show its parameter {:?}: {:?}", name, code, ps[i], shown));
        }
        bare = bare.replace(&marker(i), " ");
    }
    // Parameters of the same message are not confused with each other.
    let order = |label: &str, i: usize| -> bool {
        match (shown.to_lowercase().find(label), shown.find(&marker(i))) {
            (Some(l), Some(m)) => {
                let between = shown.to_lowercase();
                let between = &between[l.min(m)..m.max(l)];
                l < m && !between.contains('\u{27e6}')
            }
            _ => true,
        }
    };
    for (i, p) in ps.iter().enumerate() {
        let label = match *p {
            "actual" => "found",
            "expected" => "expected:",
            _ => continue,
        };
        if !order(label, i) {
            return Err(format!("{} ({}) mixes up its parameters: {:?}", name, code, shown));
        }
    }
    let strip = |f: &'static str| {
        let mut s = f.to_string();
        for p in params(f) {
            s = s.replace(&format!("{{${}}}", p), " ");
        }
        words(&s)
    };
    let mine = words(&bare);
    let own = likeness(&mine, &strip(frozen));
    for (j, other) in table.iter().enumerate() {
        if j != of && likeness(&mine, &strip(other.2)) > own {
            return Err(format!("{} ({}) has the message of {}: {:?}", name, code, other.1, shown));
        }
    }
    Ok(shown)
}

fn value(t: &mut Tape) -> String {
    match t.below(8) {
        0 => String::new(),
        1 => t.pick(&["{$name}", "{", "}", "{\"x\"}", "{ $actual }", "\u{27e6}0\u{27e7}", "-term", "{E1000}"]).to_string(),
        2 => t.pick(&["0", "1", "-1", "1.50", "1e9", "007", "9223372036854775808"]).to_string(),
        3 => gen_lines(t, 6),
        4 => t.pick(&["x", "a name", "  padded  ", "\"", "'", "\\", "\u{2068}x\u{2069}", "%s", "{0}", "error[E1000]: "]).to_string(),
        _ => (0..t.below(12)).map(|_| (b'a' + t.below(26) as u8) as char).collect(),
    }
}

fn c12_catalogue(_: &mut Tape, cx: &mut Cx) -> Res {
    let i = cx.index;
    if i < CATALOGUE.len() {
        let (code, name, frozen) = CATALOGUE[i];
        cx.text = name.to_string();
        for (j, other) in CATALOGUE.iter().enumerate() {
            if j != i && other.0 == code {
                fail!("{} and {} share the code {}", name, other.1, code);
            }
        }
        let ps = params(frozen);
        let values: Vec<String> = (0..ps.len()).map(marker).collect();
        if let Err(m) = template(code, i, CATALOGUE, message(code, tags(&ps, &values))) {
            fail!("{}", m);
        }
    } else {
        let i = i - CATALOGUE.len();
        let (id, name, frozen) = CONTEXTS[i % CONTEXTS.len()];
        let kind = if i < CONTEXTS.len() { ContextKind::Note } else { ContextKind::Help };
        cx.text = name.to_string();
        for (j, other) in CONTEXTS.iter().enumerate() {
            if j != i % CONTEXTS.len() && other.0 == id {
                fail!("{} and {} share an id", name, other.1);
            }
        }
        let ps = params(frozen);
        let values: Vec<String> = (0..ps.len()).map(marker).collect();
        if let Err(m) = template(id, i % CONTEXTS.len(), CONTEXTS, note(id, kind, tags(&ps, &values))) {
            fail!("{}", m);
        }
    }
    Res::Ok(true)
}

struct Place {
    source: Source,
    text: String,
    path: Option<String>,
    span: (usize, usize),
}

fn place(t: &mut Tape) -> Place {
    let mut text = if t.chance(1, 6) {
        // Enough lines for numbers of several digits.
        let k = *t.pick(&[9usize, 10, 11, 99, 100, 101, 998, 1001, 9999, 10001, 10050]);
        let mut s = "l\n".repeat(k);
        s.push_str(&gen_lines(t, 12));
        s
    } else {
        gen_lines(t, 16)
    };
    if t.chance(1, 3) {
        text.push_str("let x = 1\n    x + 2\n\n\ty");
    }
    let kind = if t.bool() { SourceKind::Module } else { SourceKind::Script };
    let path = if t.bool() { Some(t.pick(&["a.dm", "dir/with space/m.dm", "C:\\x:1:2", "", "é", "x{$name}"]).to_string()) } else { None };
    let source = match &path {
        Some(p) => Source::with_path(text.as_str(), p.as_str(), kind),
        None => Source::new(text.as_str(), kind),
    };
    let offs: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    let near = |t: &mut Tape| if t.bool() { t.below(offs.len()) } else { offs.len() - 1 - t.below(offs.len().min(20)) };
    let mut span;
    loop {
        let (i, j) = (near(t), near(t));
        span = (offs[i.min(j)], offs[i.max(j)]);
        if span.1 - span.0 > 300 {
            span.1 = span.0;
        }
        // An empty span after the last line feed (see C11) is not judged.
        if span.0 == span.1 && span.0 == text.len() && (text.is_empty() || text.ends_with('\n')) {
            if text.is_empty() {
                break;
            }
            if span.0 > 0 {
                span.0 = offs[offs.len() - 2];
            }
        }
        break;
    }
    Place { source, text, path, span }
}

impl Place {
    fn lines(&self) -> Vec<(usize, &str)> {
        let ranges = line_ranges(&self.text);
        let (a, b) = self.span;
        let touched: Vec<(usize, usize)> = if a == b {
            ranges.iter().copied().filter(|r| r.0 <= a && (a < r.1 || (a == r.1 && a == self.text.len()))).take(1).collect()
        } else {
            ranges.into_iter().filter(|r| r.0 < b && a < r.1).collect()
        };
        touched.into_iter().map(|r| (position(&self.text, r.0).0, &self.text[r.0..r.1])).collect()
    }
    fn location(&self) -> String {
        let (l, c) = position(&self.text, self.span.0);
        format!("{}:{}:{}", self.path.as_deref().unwrap_or("<Script>"), l, c)
    }
}

/// Spaces at the ends of lines carry nothing.
fn trimmed(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split('\n').map(|l| l.trim_end().to_string()).collect();
    while v.last().is_some_and(|l| l.is_empty()) {
        v.pop();
    }
    v
}

fn c12_rendered(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = t.below(CATALOGUE.len());
    let (code, name, frozen) = CATALOGUE[k];
    let ps = params(frozen);
    let values: Vec<String> = ps.iter().map(|_| value(t)).collect();
    let place_of = if t.chance(3, 4) { Some(place(t)) } else { None };
    let mut contexts = Vec::new();
    let many = if t.chance(1, 12) { t.range(4, 20) } else { t.weighted(&[3, 3, 2, 1]) };
    for _ in 0..many {
        let c = t.below(CONTEXTS.len());
        let vs: Vec<String> = params(CONTEXTS[c].2).iter().map(|_| value(t)).collect();
        let kind = if t.bool() { ContextKind::Note } else { ContextKind::Help };
        contexts.push((c, kind, vs));
    }
    let mut traces = Vec::new();
    let many = if t.chance(1, 12) { t.range(4, 24) } else { t.weighted(&[3, 2, 2, 1]) };
    for _ in 0..many {
        traces.push(place(t));
    }
    cx.text = format!(
        "{} {:?}\nsource: {:?}\ncontexts: {:?}\ntraces: {:?}",
        name,
        values,
        place_of.as_ref().map(|p| (&p.path, &p.text, p.span)),
        contexts.iter().map(|c| (CONTEXTS[c.0].1, c.1, &c.2)).collect::<Vec<_>>(),
        traces.iter().map(|p| (&p.path, &p.text, p.span)).collect::<Vec<_>>()
    );
    if cx.text.len() > 5000 {
        let mut cut = 5000;
        while !cx.text.is_char_boundary(cut) {
            cut -= 1;
        }
        cx.text.truncate(cut);
    }
    // What it must show.
    let marks = |n: usize| (0..n).map(marker).collect::<Vec<String>>();
    let template_of = match template(code, k, CATALOGUE, message(code, tags(&ps, &marks(ps.len())))) {
        Ok(m) => m,
        Err(m) => fail!("{}", m),
    };
    let head = format!("error[{}]: {}\n", code, fill(&template_of, &values));
    let at = match &place_of {
        Some(p) => format!("  --> {}\n", p.location()),
        None => String::new(),
    };
    let mut want = format!("{}{}", head, at);
    let plain = want.clone();
    if let Some(p) = &place_of {
        let lines = p.lines();
        if !lines.is_empty() {
            want.push_str("     |\n");
            for (no, l) in &lines {
                want.push_str(&format!("{:<4} |  {}\n", no, l.trim_end()));
            }
            want.push_str("     |\n");
        }
    }
    for (c, kind, vs) in &contexts {
        let (id, _, frozen) = CONTEXTS[*c];
        let ps = params(frozen);
        let shown = match template(id, *c, CONTEXTS, note(id, *kind, tags(&ps, &marks(ps.len())))) {
            Ok(m) => m,
            Err(m) => fail!("{}", m),
        };
        want.push_str(if *kind == ContextKind::Note { "note: " } else { "help: " });
        want.push_str(&fill(&shown, vs));
        want.push('\n');
    }
    if !traces.is_empty() {
        want.push_str("\nTrace:\n");
        for p in traces.iter().rev() {
            want.push_str(&format!("  Location: {}\n", p.location()));
            for (no, l) in p.lines() {
                want.push_str(&format!("    {:<4} | {}\n", no, l.trim()));
            }
        }
    }
    // The error, built in one of the ways there are.
    let style = t.below(3);
    let built = guard(|| {
        let mut e = Error::new(code);
        let lift = style == 1;
        let via = |e: Error, f: &dyn Fn(Result<(), Error>) -> Result<(), Error>| f(Err(e)).unwrap_err();
        let give_tags = |e: Error| {
            if lift {
                via(e, &|r| ResultExt::with_tags(r, || tags(&ps, &values)))
            } else {
                e.with_tags(tags(&ps, &values))
            }
        };
        let give_place = |mut e: Error| {
            if let Some(p) = &place_of {
                let span = Span::new(p.span.0..p.span.1);
                if lift {
                    e = via(e, &|r| ResultExt::with_span(r, || span));
                    e = via(e, &|r| ResultExt::with_source(r, || p.source.clone()));
                } else {
                    e = e.with_source(p.source.clone()).with_span(span);
                }
            }
            e
        };
        let give_contexts = |mut e: Error| {
            for (c, kind, vs) in &contexts {
                let c = CONTEXTS[*c];
                let make = || Context::new(c.0, *kind).with_tags(tags(&params(c.2), vs));
                e = if lift { via(e, &|r| ResultExt::push_context(r, make)) } else { e.push_context(make()) };
            }
            e
        };
        let give_traces = |mut e: Error| {
            for p in &traces {
                let make = || ErrorTrace { source: p.source.clone(), span: Span::new(p.span.0..p.span.1) };
                e = if lift { via(e, &|r| ResultExt::push_trace(r, make)) } else { e.push_trace(make()) };
            }
            e
        };
        if style == 2 {
            e = give_traces(e);
            e = give_contexts(e);
            e = give_place(e);
            e = give_tags(e);
        } else {
            e = give_tags(e);
            e = give_place(e);
            e = give_contexts(e);
            e = give_traces(e);
        }
        e.clone()
    });
    let e = match built {
        Ok(e) => e,
        Err(p) => fail!("panic: {}", p),
    };
    if e.error_code() != code {
        fail!("code {} for {}", e.error_code(), name);
    }
    let mut pretty_too = String::new();
    let mut plain_too = String::new();
    let mut fallback = String::new();
    let (shown, short) = match guard(|| {
        let f = HumanReadableErrorFormatter::new(false);
        f.fmt_pretty(&mut pretty_too, &e, &Locale::US_ENGLISH).unwrap();
        f.fmt(&mut plain_too, &e, &Locale::US_ENGLISH).unwrap();
        f.fmt_pretty(&mut fallback, &e, &Locale::default()).unwrap();
        (display(&e), debug(&e))
    }) {
        Ok(x) => x,
        Err(p) => fail!("panic while rendering: {}", p),
    };
    for (what, got, want) in [
        ("display", &shown, &want),
        ("formatter", &pretty_too, &want),
        ("formatter with another locale", &fallback, &want),
        ("debug", &short, &plain),
        ("plain formatter", &plain_too, &plain),
    ] {
        if trimmed(got) != trimmed(want) {
            fail!("{}: expected\n{}\ngot\n{}", what, clip(want), clip(got));
        }
    }
    Res::Ok(place_of.is_some() && (!contexts.is_empty() || !traces.is_empty()))
}

fn clip(s: &str) -> String {
    s.chars().take(3000).collect()
}

/// Errors of the compiler itself.
fn c12_reported(t: &mut Tape, cx: &mut Cx) -> Res {
    let (text, module) = match t.below(5) {
        0 | 1 => {
            let edits = t.range(1, 3);
            let (mut items, module) = judged(t, cx, edits);
            (pretty(&mut items), module)
        }
        2 => (mutated_text(t), t.bool()),
        3 => (random_text(t, 30), t.bool()),
        _ => any_text(t, cx),
    };
    cx.text = text.clone();
    let e = match compile(&text, module) {
        Err(p) => fail!("panic: {}", p),
        Ok(Ok(_)) => return Res::Discard,
        Ok(Err(e)) => e,
    };
    let (d, short) = match guard(|| (display(&e), debug(&e))) {
        Ok(x) => x,
        Err(p) => fail!("panic while rendering: {}", p),
    };
    if let Err(m) = check_error(&e) {
        fail!("{}", m);
    }
    let code = e.error_code().to_string();
    let Some(entry) = CATALOGUE.iter().find(|c| c.0 == code) else { fail!("unknown code {}", code) };
    cx.label(entry.0);
    let ps = params(entry.2);
    // The parts of the message between its parameters.
    let marks: Vec<String> = (0..ps.len()).map(marker).collect();
    let shown = match message(entry.0, tags(&ps, &marks)) {
        Ok(m) => m,
        Err(m) => fail!("{}", m),
    };
    let Some(mut rest) = short.strip_prefix(&format!("error[{}]: ", code)) else { fail!("rendering {:?}", short) };
    let mut parts = vec![shown.as_str()];
    for m in &marks {
        parts = parts.into_iter().flat_map(|p| p.split(m.as_str())).collect();
    }
    for p in &parts {
        match rest.find(p) {
            Some(i) => rest = &rest[i + p.len()..],
            None => fail!("{:?} is missing in {:?}", p, short),
        }
    }
    // Names and inputs in messages come from the source.
    let first = short.split('\n').next().unwrap_or("");
    if matches!(code.as_str(), "E2300" | "E2301" | "E2401" | "E2402" | "E2403") {
        let named = first.rsplit('\'').nth(1).or_else(|| first.split('\'').nth(1)).unwrap_or("");
        let spot = excerpt(&d);
        if named.is_empty() || !spot.iter().any(|l| l.1.contains(named)) {
            fail!("the message names {:?}, which is not at the place shown: {:?}\n{:?}", named, first, spot);
        }
    }
    for l in d.rsplit("     |").next().unwrap_or("").split('\n') {
        if (l.starts_with("note: ") || l.starts_with("help: ")) && (l.contains("{$") || l[6..].trim().is_empty()) {
            fail!("incomplete line {:?}", l);
        }
    }
    if !d.starts_with(&short) {
        fail!("the long rendering does not start with the short one:\n{}\n{}", d, short);
    }
    Res::Ok(!ps.is_empty() || d.contains("note: ") || d.contains("help: "))
}

/// Exports and imports in places where they are not allowed: the notes that explain them.
fn c12_misused(t: &mut Tape, cx: &mut Cx) -> Res {
    let module = t.chance(2, 3);
    let import = t.chance(1, 3);
    let mut inner = if import {
        let p = t.pick(&["m", "a.dm", "../x", "\u{e9}"]).to_string();
        if t.bool() {
            format!("import from \"{}\"", p)
        } else {
            format!("import {{{}}} from \"{}\"", t.pick(&["", " ", "\n"]), p)
        }
    } else {
        t.pick(&["export let x = 1", "export let mut x = [1]", "export fn f(a) { a }", "export class C { fn m(self) { self } }", "export fn f() {}"]).to_string()
    };
    let (mut blocks, mut functions) = (0, 0);
    let depth = t.below(4);
    for i in 0..depth {
        let s = *t.pick(&["", "\n", " let q = 0\n", " emit(1)\n"]);
        let after = *t.pick(&["", "\n", "\n7", "\nlet r = 2"]);
        blocks += 1;
        let what = t.below(12);
        let body = format!("{{{} {}{} }}", s, inner, after);
        inner = match what {
            0 => format!("let z{} = {}", i, body),
            1 => format!("if true {}", body),
            2 => format!("if false {{ 1 }} else {}", body),
            3 => format!("loop {}", body),
            4 => format!("while false {}", body),
            5 => format!("for i in 0..2 {}", body),
            6 => body,
            _ => {
                functions += 1;
                match what {
                    7 => format!("fn g{}(a, b) {}", i, body),
                    8 => format!("let h{} = |a| {}", i, body),
                    9 => format!("class K{} {{ fn m(self) {} }}", i, body),
                    10 => format!("class K{} {{ fn new(self) {} }}", i, body),
                    _ => format!("class K{} {{ fn s() {} }}", i, body),
                }
            }
        };
    }
    let before = *t.pick(&["", "let aa = 1\n", "fn bb() { 1 }\n"]);
    let after = *t.pick(&["", "\n", "\nlet cc = 3", "\nemit(3)"]);
    let text = format!("{}{}{}", before, inner, after);
    cx.text = text.clone();
    let compiled = match compile(&text, module) {
        Err(p) => fail!("panic: {}", p),
        Ok(x) => x,
    };
    let mut lines: Vec<(&'static str, ContextKind, Option<&str>)> = Vec::new();
    let code;
    if import {
        cx.label("import");
        code = codes::INVALID_IMPORT_USAGE;
        lines.push((context::IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED, ContextKind::Note, None));
        lines.push((context::IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP, ContextKind::Help, None));
    } else {
        code = codes::INVALID_EXPORT_USAGE;
        if functions > 0 || !module {
            let kind = if functions > 0 { "function" } else { "script" };
            cx.label(kind);
            lines.push((context::EXPORT_ONLY_ALLOWED_IN_MODULES, ContextKind::Note, Some(kind)));
        } else if blocks > 0 {
            cx.label("nested in a module");
            lines.push((context::EXPORT_ONLY_ALLOWED_IN_TOP_LEVEL_SCOPE, ContextKind::Note, None));
        } else {
            cx.label("allowed");
            return match compiled {
                Ok(_) => Res::Ok(false),
                Err(e) => Res::Fail(format!("an allowed export is rejected: {}", debug(&e))),
            };
        }
    }
    let e = match compiled {
        Ok(_) => fail!("compiled"),
        Err(e) => e,
    };
    if e.error_code() != code {
        fail!("expected {}, got {}", code, debug(&e));
    }
    let d = match guard(|| display(&e)) {
        Ok(d) => d,
        Err(p) => fail!("panic while rendering: {}", p),
    };
    let mut want = Vec::new();
    for (id, kind, value) in &lines {
        let ps: Vec<&'static str> = if value.is_some() { vec!["kind"] } else { vec![] };
        let marks = if value.is_some() { vec![marker(0)] } else { vec![] };
        let shown = match note(id, *kind, tags(&ps, &marks)) {
            Ok(m) => m,
            Err(m) => fail!("{}", m),
        };
        let heading = match kind {
            ContextKind::Note => "note: ",
            ContextKind::Help => "help: ",
        };
        let values: Vec<String> = value.iter().map(|v| v.to_string()).collect();
        want.push(format!("{}{}", heading, fill(&shown, &values)).trim().to_lowercase());
    }
    let got: Vec<String> =
        d.lines().filter(|l| l.starts_with("note: ") || l.starts_with("help: ")).map(|l| l.trim().to_lowercase()).collect();
    if want != got {
        fail!("expected the lines {:?}, got {:?} in\n{}", want, got, d);
    }
    Res::Ok(true)
}

fn c12_io(t: &mut Tape, cx: &mut Cx) -> Res {
    use std::io::{Error as Io, ErrorKind};
    let text = value(t);
    let kind = *t.pick(&[ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::Other, ErrorKind::InvalidData]);
    cx.text = format!("{:?} {:?}", kind, text);
    let plain = t.bool();
    let make = || if plain { Io::from(kind) } else { Io::new(kind, text.clone()) };
    let want = make().to_string();
    let e: Error = make().into();
    if e.error_code() != codes::IO_ERROR {
        fail!("code {}", e.error_code());
    }
    let m = match message(codes::IO_ERROR, tags(&["message"], &[marker(0)])) {
        Ok(m) => m,
        Err(m) => fail!("{}", m),
    };
    let want = format!("error[{}]: {}", codes::IO_ERROR, fill(&m, &[want]));
    if trimmed(&debug(&e)) != trimmed(&want) {
        fail!("expected {:?}, got {:?}", want, debug(&e));
    }
    let ok: Result<u8, Error> = Ok(7);
    let ok = ResultExt::push_context(ResultExt::with_span(ok, || Span::new(1..2)), || Context::new(context::INVALID_INDEX_TYPES, ContextKind::Note));
    if !matches!(ok, Ok(7)) {
        fail!("a result without an error was changed");
    }
    Res::Ok(!text.is_empty())
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        suites: vec![
            Suite {
                name: "catalogue",
                quick: 62 + 14,
                thorough: 62 + 14,
                f: c12_catalogue,
                rule: "every code and every note or help text: distinct, complete, and its own message; all non-trivial",
            },
            Suite {
                name: "rendered",
                quick: 120_000,
                thorough: 3_000_000,
                f: c12_rendered,
                rule: "errors with random codes, parameters, sources, spans, contexts and traces against a model of the rendering; non-trivial with a source and a context or a trace",
            },
            Suite {
                name: "reported",
                quick: 120_000,
                thorough: 3_000_000,
                f: c12_reported,
                rule: "errors the compiler reports for programs that break rules and for damaged text; non-trivial when the message has parameters or there are notes",
            },
            Suite {
                name: "misused",
                quick: 12_000,
                thorough: 400_000,
                f: c12_misused,
                rule: "exports and empty imports in places of every kind carry exactly the notes and help that explain them; non-trivial when rejected",
            },
            Suite {
                name: "io",
                quick: 4_000,
                thorough: 50_000,
                f: c12_io,
                rule: "errors made from I/O errors; non-trivial with text",
            },
        ],
        assumptions: vec![
            "the wording of messages may change as long as a message stays closer to its own former wording than to that of any other error",
            "spaces at the ends of rendered lines are not judged",
        ],
        probes: vec![],
    }
}
