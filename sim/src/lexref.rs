//! Reference lexer for Modelica (specification 3.6, chapter 2), written
//! independently of mofmt: it decides what counts as a token, a comment or an
//! illegal character when files are compared.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Item {
    Tok,
    Line,
    Block,
}

#[derive(Clone, Debug)]
pub struct Lex<'a> {
    pub item: Item,
    /// keyword or punctuation itself, or one of ident string uint ureal bool
    pub kind: &'static str,
    pub text: &'a str,
    pub start: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct LexErr {
    pub line: usize,
    pub col: usize,
    pub stray: bool,
}

pub const KEYWORDS: &[&str] = &[
    "algorithm", "and", "annotation", "block", "break", "class", "connect", "connector", "constant",
    "constrainedby", "der", "discrete", "each", "else", "elseif", "elsewhen", "encapsulated", "end",
    "enumeration", "equation", "expandable", "extends", "external", "final", "flow", "for", "function",
    "if", "import", "impure", "in", "initial", "inner", "input", "loop", "model", "not", "operator", "or",
    "outer", "output", "package", "parameter", "partial", "protected", "public", "pure", "record",
    "redeclare", "replaceable", "return", "stream", "then", "type", "when", "while", "within",
];
const PUNCT: &[&str] = &[
    ":=", "==", "<>", "<=", ">=", ".+", ".-", ".*", "./", ".^", ";", ",", "+", "-", "*", "^", "(", "{", "[",
    ")", "}", "]", ":", "=", "<", ">", ".", "/",
];
const QOK: &[u8] = b"_!#$%&()*+,-./:;<>=?@[]^{}|~ \"";

fn space(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0c)
}

pub fn lex(src: &str) -> Result<Vec<Lex<'_>>, LexErr> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let (mut i, mut line, mut col) = (0usize, 1usize, 1usize);
    while i < b.len() {
        let s = i;
        let err = |stray| LexErr { line, col, stray };
        let c = b[i];
        let mut item = Item::Tok;
        let kind: &'static str;
        if space(c) {
            while i < b.len() && space(b[i]) {
                if b[i] == b'\n' || (b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')) {
                    line += 1;
                    col = 1;
                } else {
                    col += 1;
                }
                i += 1;
            }
            continue;
        } else if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
            item = Item::Line;
            kind = "//";
        } else if b[i..].starts_with(b"/*") {
            i += 2;
            loop {
                if i + 1 >= b.len() {
                    return Err(err(false));
                }
                if b[i] == b'*' && b[i + 1] == b'/' {
                    i += 2;
                    break;
                }
                i += 1;
            }
            item = Item::Block;
            kind = "/*";
        } else if c == b'"' {
            i += 1;
            loop {
                match b.get(i) {
                    None => return Err(err(false)),
                    Some(b'\\') => i += 2,
                    Some(b'"') => {
                        i += 1;
                        break;
                    }
                    _ => i += 1,
                }
            }
            if i > b.len() {
                return Err(err(false));
            }
            kind = "string";
        } else if c == b'\'' {
            i += 1;
            loop {
                match b.get(i) {
                    None => return Err(err(false)),
                    Some(b'\\') => {
                        // the escaped character, whatever its width
                        i += 1;
                        if i >= b.len() {
                            return Err(err(false));
                        }
                        i += 1;
                        while i < b.len() && b[i] & 0xc0 == 0x80 {
                            i += 1;
                        }
                    }
                    Some(b'\'') if i == s + 1 => return Err(err(false)),
                    Some(b'\'') => {
                        i += 1;
                        break;
                    }
                    Some(x) if x.is_ascii_alphanumeric() || QOK.contains(x) => i += 1,
                    _ => return Err(err(false)),
                }
            }
            kind = "ident";
        } else if c.is_ascii_digit() {
            let digits = |i: &mut usize| {
                while *i < b.len() && b[*i].is_ascii_digit() {
                    *i += 1
                }
            };
            let mut real = false;
            digits(&mut i);
            if b.get(i) == Some(&b'.') {
                real = true;
                i += 1;
                digits(&mut i);
            }
            if matches!(b.get(i), Some(b'e' | b'E')) {
                real = true;
                i += 1;
                if matches!(b.get(i), Some(b'+' | b'-')) {
                    i += 1;
                }
                if !b.get(i).is_some_and(u8::is_ascii_digit) {
                    return Err(err(false));
                }
                digits(&mut i);
            }
            kind = if real { "ureal" } else { "uint" };
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let w = &src[s..i];
            kind = if w == "true" || w == "false" {
                "bool"
            } else {
                KEYWORDS.iter().copied().find(|k| *k == w).unwrap_or("ident")
            };
        } else {
            match PUNCT.iter().copied().find(|p| b[i..].starts_with(p.as_bytes())) {
                Some(p) => {
                    i += p.len();
                    kind = p;
                }
                None => return Err(err(true)),
            }
        }
        let text = &src[s..i];
        out.push(Lex { item, kind, text, start: s, line, col });
        let mut cs = text.chars().peekable();
        while let Some(ch) = cs.next() {
            let nl = cs.peek().copied().or_else(|| b.get(i).map(|x| *x as char)) == Some('\n');
            if ch == '\n' || (ch == '\r' && !nl) {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
    }
    Ok(out)
}

/// A comment's text without the layout a formatter may adjust: trailing
/// blanks of each line, and the indentation of continuation lines.
pub fn comment_text(t: &str) -> String {
    t.split('\n').map(|l| l.trim_matches(|c: char| c.is_ascii_whitespace())).collect::<Vec<_>>().join("\n")
}

/// Code tokens only.
pub fn code<'a>(l: &[Lex<'a>]) -> Vec<&'a str> {
    l.iter().filter(|x| x.item == Item::Tok).map(|x| x.text).collect()
}
/// Tokens and comments, interleaved in source order.
pub fn all(l: &[Lex<'_>]) -> Vec<String> {
    l.iter()
        .map(|x| match x.item {
            Item::Tok => format!("t{}", x.text),
            _ => format!("c{}", comment_text(x.text)),
        })
        .collect()
}
