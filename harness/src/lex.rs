//! An independent splitting of Elm text into tokens, used to state what an accepted text must look
//! like and that its AST leaves nothing out.

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Str(String),
    Chr(char),
    Sym(char),
    LineComment(String),
    BlockComment(String),
}

#[derive(Clone, Debug)]
pub struct Lexed {
    pub toks: Vec<(Tok, usize, usize)>, // with byte span
    pub unterminated: Option<&'static str>,
    /// `--` where it could be part of an operator
    pub ambiguous: bool,
    /// a character that is no part of the language outside literals and comments
    pub junk: Option<char>,
}

fn opch(c: char) -> bool {
    "-+/*=.$<>:&|^?%#@~!\\".contains(c)
}

pub fn lex(text: &str) -> Lexed {
    let c: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| c.get(i).map(|x| x.1);
    let pos = |i: usize| c.get(i).map(|x| x.0).unwrap_or(text.len());
    let mut r = Lexed { toks: vec![], unterminated: None, ambiguous: false, junk: None };
    let mut i = 0;
    while i < c.len() {
        let st = i;
        let ch = c[i].1;
        if ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r' {
            i += 1;
            continue;
        }
        if ch.is_ascii_alphanumeric() || ch == '_' {
            while at(i).map(|c| c.is_ascii_alphanumeric() || c == '_').unwrap_or(false) {
                i += 1;
            }
            r.toks.push((Tok::Word(text[pos(st)..pos(i)].to_string()), pos(st), pos(i)));
            continue;
        }
        if ch == '"' {
            let triple = at(i + 1) == Some('"') && at(i + 2) == Some('"');
            let n = if triple { 3 } else { 1 };
            i += n;
            let s0 = i;
            let mut closed = false;
            while i < c.len() {
                match c[i].1 {
                    '\\' if !triple && at(i + 1) == Some('\n') => break,
                    '\\' => i += 2,
                    '\n' if !triple => break,
                    '"' if !triple => {
                        closed = true;
                        break;
                    }
                    '"' if at(i + 1) == Some('"') && at(i + 2) == Some('"') => {
                        closed = true;
                        break;
                    }
                    _ => i += 1,
                }
            }
            if !closed {
                r.unterminated = Some("string");
                return r;
            }
            let s = text[pos(s0)..pos(i)].to_string();
            i += n;
            r.toks.push((Tok::Str(s), pos(st), pos(i)));
            continue;
        }
        if ch == '\'' {
            let (v, n) = match (at(i + 1), at(i + 2)) {
                (Some('\\'), Some('x')) => {
                    let h: String = [at(i + 3), at(i + 4)].iter().flatten().collect();
                    let hex = h.len() == 2 && h.chars().all(|c| c.is_ascii_hexdigit());
                    (if hex { u8::from_str_radix(&h, 16).ok().map(|b| b as char) } else { None }, 5)
                }
                (Some('\\'), Some('n')) => (Some('\n'), 3),
                (Some('\\'), Some('r')) => (Some('\r'), 3),
                (Some('\\'), Some('t')) => (Some('\t'), 3),
                (Some('\\'), Some(q)) if "\\'\"".contains(q) => (Some(q), 3),
                (Some('\\'), _) => (None, 2),
                (v, _) => (v, 2),
            };
            match v {
                Some(v) if at(i + n) == Some('\'') => {
                    i += n + 1;
                    r.toks.push((Tok::Chr(v), pos(st), pos(i)));
                    continue;
                }
                _ => {
                    r.unterminated = Some("character");
                    return r;
                }
            }
        }
        if ch == '-' && at(i + 1) == Some('-') {
            let prev = if i > 0 { at(i - 1) } else { None };
            let line = text[..pos(i)].rfind('\n').map(|p| p + 1).unwrap_or(0);
            if prev.map(|p| opch(p) || p == '(').unwrap_or(false) || text[line..pos(i)].contains("infix") {
                r.ambiguous = true;
            }
            while i < c.len() && c[i].1 != '\n' {
                i += 1;
            }
            r.toks.push((Tok::LineComment(text[pos(st) + 2..pos(i)].to_string()), pos(st), pos(i)));
            continue;
        }
        if ch == '{' && at(i + 1) == Some('-') {
            match text[pos(i) + 2..].find("-}") {
                Some(p) => {
                    let s = text[pos(i) + 2..pos(i) + 2 + p].to_string();
                    let end = pos(i) + 2 + p + 2;
                    r.toks.push((Tok::BlockComment(s), pos(st), end));
                    while i < c.len() && c[i].0 < end {
                        i += 1;
                    }
                    continue;
                }
                None => {
                    r.unterminated = Some("comment");
                    return r;
                }
            }
        }
        if !(opch(ch) || "()[]{},".contains(ch)) && r.junk.is_none() {
            r.junk = Some(ch);
        }
        i += 1;
        r.toks.push((Tok::Sym(ch), pos(st), pos(i)));
    }
    r
}

/// Why no accepted text can look like this, if so.
pub fn malformed(l: &Lexed) -> Option<String> {
    if let Some(u) = l.unterminated {
        return Some(format!("unterminated {}", u));
    }
    if let Some(c) = l.junk {
        return Some(format!("stray character {:?}", c));
    }
    let mut stack: Vec<char> = vec![];
    let toks: Vec<&Tok> = l.toks.iter().map(|t| &t.0).filter(|t| !matches!(t, Tok::LineComment(_) | Tok::BlockComment(_))).collect();
    let count = |w: &str| toks.iter().filter(|t| matches!(t, Tok::Word(x) if x == w)).count();
    for t in &toks {
        if let Tok::Sym(c) = t {
            match c {
                '(' | '[' | '{' => stack.push(*c),
                ')' | ']' | '}' => {
                    let want = match c {
                        ')' => '(',
                        ']' => '[',
                        _ => '{',
                    };
                    if stack.pop() != Some(want) {
                        return Some(format!("unmatched {:?}", c));
                    }
                }
                _ => {}
            }
        }
    }
    if let Some(c) = stack.pop() {
        return Some(format!("unclosed {:?}", c));
    }
    let (i, t, e) = (count("if"), count("then"), count("else"));
    if i != t || i != e {
        return Some(format!("{} if, {} then, {} else", i, t, e));
    }
    let (a, b) = (count("case"), count("of"));
    if a != b {
        return Some(format!("{} case, {} of", a, b));
    }
    let (a, b) = (count("let"), count("in"));
    if a != b {
        return Some(format!("{} let, {} in", a, b));
    }
    // commas
    let mut j = 0;
    while j < toks.len() {
        if *toks[j] == Tok::Sym(',') {
            let mut k = j;
            while k < toks.len() && *toks[k] == Tok::Sym(',') {
                k += 1;
            }
            let before = if j > 0 { Some(toks[j - 1]) } else { None };
            let after = toks.get(k).cloned();
            let tuple_function = before == Some(&Tok::Sym('(')) && after == Some(&Tok::Sym(')'));
            if !tuple_function {
                let open = before.map(|t| matches!(t, Tok::Sym('(') | Tok::Sym('[') | Tok::Sym('{'))).unwrap_or(true);
                let close = after.map(|t| matches!(t, Tok::Sym(')') | Tok::Sym(']') | Tok::Sym('}'))).unwrap_or(true);
                if open || close || k - j > 1 {
                    return Some("a comma with nothing before or after it".to_string());
                }
            }
            j = k;
        } else {
            j += 1;
        }
    }
    None
}

/// The content of a text: its tokens without white space, comments and grouping brackets.
pub fn content(l: &Lexed) -> Vec<Tok> {
    let t: Vec<Tok> = l.toks.iter().map(|t| t.0.clone()).filter(|t| !matches!(t, Tok::LineComment(_) | Tok::BlockComment(_))).collect();
    let mut out: Vec<Tok> = vec![];
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            Tok::Sym('(') if t.get(i + 1) == Some(&Tok::Sym(')')) => {
                out.push(Tok::Word("()".to_string()));
                i += 2;
                continue;
            }
            Tok::Sym('(') | Tok::Sym(')') => {}
            Tok::Word(w) if w.chars().all(|c| c.is_ascii_digit()) => {
                let z = w.trim_start_matches('0');
                out.push(Tok::Word(if z.is_empty() { "0".to_string() } else { z.to_string() }));
            }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    // { a = a, b = b } and { a, b } are the same record
    let mut fin: Vec<Tok> = vec![];
    let mut i = 0;
    while i < out.len() {
        let prev = fin.last().map(|t| matches!(t, Tok::Sym('{') | Tok::Sym(','))).unwrap_or(false);
        if prev && i + 3 < out.len() {
            if let (Tok::Word(a), Tok::Sym('='), Tok::Word(b)) = (&out[i], &out[i + 1], &out[i + 2]) {
                if a == b && matches!(out[i + 3], Tok::Sym(',') | Tok::Sym('}')) {
                    fin.push(out[i].clone());
                    i += 3;
                    continue;
                }
            }
        }
        fin.push(out[i].clone());
        i += 1;
    }
    fin
}
