//! Reference lexer, written from the language's token definitions.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum TK {
    /// Punctuation or keyword.
    Sym(&'static str),
    Ident,
    Int,
    Float,
    Str,
    Raw,
    Reserved,
    Error,
    /// A literal that is not closed or has a bad escape: the error code to report.
    Bad(&'static str),
    Eoi,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub k: TK,
    pub s: String,
}

impl Tok {
    pub fn sym(s: &'static str) -> Tok {
        Tok {
            k: TK::Sym(s),
            s: s.to_string(),
        }
    }
    pub fn ident(s: &str) -> Tok {
        Tok {
            k: TK::Ident,
            s: s.to_string(),
        }
    }
}

pub const PUNCT: &[&str] = &[
    "..=", "..", "->", "=>", "!!", "??", "!=", "==", ">=", "<=", "*=", "/=", "+=", "-=", "&&", "|>", "(", ")", "{",
    "}", "[", "]", ":", ",", "|", ".", "?", "-", "+", "%", "*", "/", "!", ">", "<", "=", "#",
];
pub const KEYWORDS: &[&str] = &[
    "or", "false", "true", "null", "if", "else", "while", "loop", "for", "break", "continue", "return", "fn", "let",
    "mut", "in", "op", "class", "is", "import", "as", "from", "export", "super",
];
pub const RESERVED: &[&str] = &[
    "await", "async", "yield", "do", "const", "match", "enum", "trait", "type", "try", "when", "default", "switch",
];

#[derive(Clone, Debug, PartialEq)]
pub struct LTok {
    pub k: TK,
    pub start: usize,
    pub end: usize,
}

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n' | '\u{c}')
}

/// All tokens of the text; stops after the first Bad one (nothing after it can be told apart).
pub fn lex(text: &str) -> Vec<LTok> {
    let b = text.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = text[i..].chars().next().unwrap();
        if is_ws(c) {
            i += 1;
            continue;
        }
        if text[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
            continue;
        }
        let start = i;
        if c == '_' || c.is_ascii_alphabetic() {
            while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            let w = &text[start..i];
            let k = if let Some(k) = KEYWORDS.iter().find(|k| **k == w) {
                TK::Sym(k)
            } else if RESERVED.contains(&w) {
                TK::Reserved
            } else {
                TK::Ident
            };
            out.push(LTok { k, start, end: i });
            continue;
        }
        if c.is_ascii_digit() {
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let mut k = TK::Int;
            if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                k = TK::Float;
            }
            out.push(LTok { k, start, end: i });
            continue;
        }
        if c == '"' {
            i += 1;
            let mut bad = None;
            loop {
                let Some(d) = text[i..].chars().next() else {
                    bad = Some("E1002");
                    break;
                };
                i += d.len_utf8();
                if d == '"' {
                    break;
                }
                if d == '\\' {
                    match text[i..].chars().next() {
                        Some('"') | Some('\\') | Some('n') | Some('r') | Some('t') => i += 1,
                        Some(_) => {
                            bad = Some("E1001");
                            break;
                        }
                        None => {
                            bad = Some("E1002");
                            break;
                        }
                    }
                }
            }
            if let Some(code) = bad {
                out.push(LTok {
                    k: TK::Bad(code),
                    start,
                    end: i,
                });
                return out;
            }
            out.push(LTok {
                k: TK::Str,
                start,
                end: i,
            });
            continue;
        }
        if c == '\\' {
            match text[i + 1..].find('\\') {
                Some(n) => {
                    i = i + 1 + n + 1;
                    out.push(LTok {
                        k: TK::Raw,
                        start,
                        end: i,
                    });
                }
                None => {
                    out.push(LTok {
                        k: TK::Bad("E1009"),
                        start,
                        end: b.len(),
                    });
                    return out;
                }
            }
            continue;
        }
        if let Some(p) = PUNCT.iter().find(|p| text[i..].starts_with(**p)) {
            i += p.len();
            out.push(LTok {
                k: TK::Sym(p),
                start,
                end: i,
            });
            continue;
        }
        i += c.len_utf8();
        out.push(LTok {
            k: TK::Error,
            start,
            end: i,
        });
    }
    out
}

/// Whether two tokens may be written without anything between them.
pub fn can_touch(a: &Tok, b: &Tok) -> bool {
    // An integer before the dot would make a float of them.
    if a.s == "." && b.s.starts_with(|c: char| c.is_ascii_digit()) {
        return false;
    }
    let text = format!("{}{}", a.s, b.s);
    let l = lex(&text);
    l.len() == 2 && l[0].k == a.k && l[0].end == a.s.len() && l[1].k == b.k && l[1].end == text.len()
}

pub fn unescape(spelled: &str) -> String {
    let inner = &spelled[1..spelled.len() - 1];
    let mut out = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            out.push(match it.next() {
                Some('n') => '\n',
                Some('r') => '\r',
                Some('t') => '\t',
                Some(o) => o,
                None => '\\',
            });
        } else {
            out.push(c);
        }
    }
    out
}
