use dice_bytecode::Bytecode;
use dice_compiler::compiler::Compiler;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_syntax::{Parser, SyntaxTree};

use crate::runner::{announce, bounded, guard};

pub fn source(text: &str, module: bool) -> Source {
    let kind = if module { SourceKind::Module } else { SourceKind::Script };
    Source::new(text, kind)
}

fn work(text: &str) -> u64 {
    5_000_000 + 20_000 * text.len() as u64
}

/// Parses with the code under test; a panic is `Err(message)`.
pub fn parse_src(s: &Source) -> Result<Result<SyntaxTree, Error>, String> {
    announce(s.source());
    guard(|| bounded(work(s.source()), || Parser::new(s).parse()))
}

pub fn parse(text: &str) -> Result<Result<SyntaxTree, Error>, String> {
    parse_src(&source(text, false))
}

pub fn compile_src(s: Source) -> Result<Result<Bytecode, Error>, String> {
    announce(s.source());
    let w = work(s.source());
    guard(|| bounded(w, || Compiler::compile_source(s)))
}

pub fn compile(text: &str, module: bool) -> Result<Result<Bytecode, Error>, String> {
    compile_src(source(text, module))
}

/// Bare text of the rendering (no escape codes: NO_COLOR is set).
pub fn display(e: &Error) -> String {
    format!("{}", e)
}
pub fn debug(e: &Error) -> String {
    format!("{:?}", e)
}

/// Reference: 1-based line and UTF-16 column.
pub fn position(text: &str, offset: usize) -> (usize, usize) {
    let before = &text[..offset];
    let line = before.matches('\n').count() + 1;
    let start = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, before[start..].encode_utf16().count() + 1)
}

/// Reference: the lines (with their terminators) of the text as byte ranges.
pub fn line_ranges(text: &str) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut start = 0;
    for (i, c) in text.char_indices() {
        if c == '\n' {
            out.push((start, i + 1));
            start = i + 1;
        }
    }
    if start < text.len() {
        out.push((start, text.len()));
    }
    out
}

/// The position `path:line:column` an error's plain rendering shows.
pub fn shown_position(e: &Error) -> Option<(String, usize, usize)> {
    let d = debug(e);
    let line = d.lines().rev().find(|l| l.trim_start().starts_with("--> "))?;
    let rest = line.trim_start().strip_prefix("--> ")?;
    let mut it = rest.rsplitn(3, ':');
    let col = it.next()?.parse().ok()?;
    let ln = it.next()?.parse().ok()?;
    Some((it.next()?.to_string(), ln, col))
}

/// Codes of the catalogue (frozen).
pub const CODES: &[&str] = &[
    "E1000", "E1001", "E1002", "E1003", "E1004", "E1005", "E1006", "E1007", "E1008", "E1009", "E2000", "E2100",
    "E2101", "E2102", "E2103", "E2104", "E2200", "E2201", "E2202", "E2203", "E2204", "E2205", "E2206", "E2207",
    "E2300", "E2301", "E2400", "E2401", "E2402", "E2403", "E2500", "E2501", "E2502", "E2503", "E2504", "E2505",
    "E3000", "E3001", "E3002", "E3003", "E3004", "E3005", "E3006", "E3007", "E3100", "E3101", "E3102", "E3103",
    "E3104", "E3105", "E3200", "E3300", "E3301", "E3302", "E3400", "E3401", "E3402", "E4000", "E4001", "E4002",
    "E4003", "E4004",
];

/// An error must have a catalogued code and a complete, non-empty message.
pub fn check_error(e: &Error) -> Result<(), String> {
    let code = e.error_code().to_string();
    if !CODES.contains(&code.as_str()) {
        return Err(format!("uncatalogued code {:?}", code));
    }
    let d = debug(e);
    let first = d.lines().next().unwrap_or("");
    let prefix = format!("error[{}]: ", code);
    let Some(msg) = first.strip_prefix(&prefix) else {
        return Err(format!("error rendering does not start with its code: {:?}", d));
    };
    if msg.trim().is_empty() {
        return Err(format!("empty message: {:?}", d));
    }
    if msg.contains("{$") {
        return Err(format!("unfilled parameter: {:?}", d));
    }
    Ok(())
}
