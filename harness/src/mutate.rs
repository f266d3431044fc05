//! Random edits of a text.

use crate::choice::Src;
use crate::dict::Dict;
use crate::lex;

pub const POOL: &[&str] = &[
    "(", ")", "[", "]", "{", "}", ",", "=", "|", "->", ":", "::", ".", "..", "\\", "+", "-", "if", "then", "else", "let", "in", "case", "of", "type", "alias", "import", "module", "port", "exposing", "as",
    "where", "a", "b", "A", "B", "_", "1", "-1", "2.5", "\"s\"", "'c'", "\n", "\n  ", "\n    ", " ", "--", "{-", "-}", "\"", "'", "\"\"\"", "x = 1", "infixl", "effect", ".x", "a.b", "A.b", "()", "(,)", "-- c\n", "\nx = 1\n",
    "\t", "\r\n", "`", ";", "é", "0x1F", "1e3", "{ a | b = 1 }", "[1, 2]",
];

pub const KINDS: usize = 19;

/// Indentations at which a narrow integer wraps round, and some ordinary large ones.
const FAR: &[usize] = &[1, 2, 4, 8, 16, 31, 40, 64, 100, 120, 127, 128, 200, 252, 255, 256, 257, 300, 512, 1000];

fn snap(t: &str, mut p: usize) -> usize {
    while !t.is_char_boundary(p) {
        p -= 1;
    }
    p
}

pub fn mutate(text: &str, src: &mut Src, d: &Dict) -> String {
    let kind = src.below(KINDS);
    mutate_by(kind, text, src, d)
}

/// The edits that change only where things stand.
pub const LAYOUT: &[usize] = &[5, 6, 9, 13, 15];

pub fn mutate_by(kind: usize, text: &str, src: &mut Src, d: &Dict) -> String {
    let l = lex::lex(text);
    let mut t = text.to_string();
    let spans: Vec<(usize, usize)> = l.toks.iter().map(|x| (x.1, x.2)).collect();
    let tok = |src: &mut Src| -> Option<(usize, usize)> {
        if spans.is_empty() {
            None
        } else {
            let i = src.below(spans.len());
            Some(spans[i])
        }
    };
    let piece = |src: &mut Src| -> String {
        if src.chance(100) && !d.texts.is_empty() {
            let i = src.below(d.texts.len());
            d.texts[i].clone()
        } else {
            src.pick(POOL).to_string()
        }
    };
    match kind {
        0 => {
            // delete a token
            if let Some((a, b)) = tok(src) {
                t.replace_range(a..b, "");
            }
        }
        1 => {
            // insert a token
            if let Some((a, _)) = tok(src) {
                let p = piece(src);
                let p = match src.below(4) {
                    0 => p,
                    1 => p + " ",
                    2 => format!(" {} ", p),
                    _ => format!(" {}", p),
                };
                t.insert_str(a, &p);
            } else {
                t = piece(src);
            }
        }
        2 => {
            // replace a token
            if let Some((a, b)) = tok(src) {
                let p = piece(src);
                t.replace_range(a..b, &p);
            }
        }
        3 => {
            // swap two tokens
            if let (Some(x), Some(y)) = (tok(src), tok(src)) {
                let (x, y) = if x.0 <= y.0 { (x, y) } else { (y, x) };
                if x.1 <= y.0 {
                    let a = t[x.0..x.1].to_string();
                    let b = t[y.0..y.1].to_string();
                    t.replace_range(y.0..y.1, &a);
                    t.replace_range(x.0..x.1, &b);
                }
            }
        }
        4 => {
            // repeat a token
            if let Some((a, b)) = tok(src) {
                let s = t[a..b].to_string();
                let sep = *src.pick(&["", " ", ", ", "\n"]);
                t.insert_str(a, &(s + sep));
            }
        }
        5 => {
            // change the indentation of a line
            let lines: Vec<usize> = t.match_indices('\n').map(|m| m.0 + 1).collect();
            if !lines.is_empty() {
                let p = *src.pick(&lines);
                let n = t[p..].bytes().take_while(|b| *b == b' ').count();
                let m = match src.below(4) {
                    0 => n.saturating_sub(1),
                    1 => n + 1,
                    2 => src.range(0, 12),
                    _ => 0,
                };
                t.replace_range(p..p + n, &" ".repeat(m));
            }
        }
        6 => {
            // join or split lines
            if src.chance(500) {
                let lines: Vec<usize> = t.match_indices('\n').map(|m| m.0).collect();
                if !lines.is_empty() {
                    let p = *src.pick(&lines);
                    t.replace_range(p..p + 1, *src.pick(&["", " "]));
                }
            } else if let Some((a, _)) = tok(src) {
                let n = src.range(0, 8);
                t.insert_str(a, &format!("\n{}", " ".repeat(n)));
            }
        }
        7 => {
            // cut a stretch out
            let a = snap(&t, src.below(t.len() + 1));
            let n = src.range(1, 20);
            let b = snap(&t, (a + n).min(t.len()));
            t.replace_range(a..b.max(a), "");
        }
        8 => {
            // keep only a beginning or an end
            let a = snap(&t, src.below(t.len() + 1));
            t = if src.chance(500) { t[..a].to_string() } else { t[a..].to_string() };
        }
        9 => {
            // white space where there was none, or none where there was some
            let sp: Vec<usize> = t.match_indices(' ').map(|m| m.0).collect();
            if src.chance(500) && !sp.is_empty() {
                let p = *src.pick(&sp);
                t.replace_range(p..p + 1, "");
            } else if let Some((_, b)) = tok(src) {
                t.insert_str(b, *src.pick(&[" ", "  ", "\n", "\t", "\r\n", " -- c\n", "\r", "\u{c}", "\u{b}", "\u{a0}", "\n\n", "\n\t"]));
            }
        }
        10 => {
            // copy a stretch elsewhere
            let a = snap(&t, src.below(t.len() + 1));
            let n = src.range(1, 60);
            let b = snap(&t, (a + n).min(t.len()));
            let s = t[a..b.max(a)].to_string();
            let p = snap(&t, src.below(t.len() + 1));
            t.insert_str(p, &s);
        }
        11 => {
            // the case of a letter
            if src.chance(300) {
                if let Some((a, b)) = tok(src) {
                    let w = if src.chance(500) { t[a..b].to_ascii_uppercase() } else { t[a..b].to_ascii_lowercase() };
                    t.replace_range(a..b, &w);
                }
                return t;
            }
            let w: Vec<usize> = t.char_indices().filter(|c| c.1.is_ascii_alphabetic()).map(|c| c.0).collect();
            if !w.is_empty() {
                let i = *src.pick(&w);
                let c = t.as_bytes()[i] as char;
                let f = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
                t.replace_range(i..i + 1, &f.to_string());
            }
        }
        12 => {
            // punctuation next to a token
            if let Some((a, b)) = tok(src) {
                let p = if src.chance(500) { a } else { b };
                let s = *src.pick(&["=", ":", "|", ".", ",", "-", ">", "<", "+", "*", "_", "'", "\"", "(", ")", "{", "}", "[", "]", "\\", "/", "1", "a", "A", "&", "!", "?", "@", "#", "$", "%", "^", "~", ";", "`"]);
                t.insert_str(p, s);
            }
        }
        13 => {
            // everything from some indentation on, moved far to the right
            let inds: Vec<usize> = t.split('\n').map(|l| l.bytes().take_while(|b| *b == b' ').count()).filter(|n| *n > 0).collect();
            if !inds.is_empty() {
                let m = *src.pick(&inds);
                let one = src.chance(300);
                let mut by = if src.chance(8) && inds.len() < 12 { 65_536 - src.range(0, 2) } else { *src.pick(FAR) };
                if src.chance(300) {
                    by = by.saturating_sub(m);
                }
                let hit = src.below(inds.len());
                let mut i = 0;
                let lines: Vec<String> = t
                    .split('\n')
                    .map(|l| {
                        let n = l.bytes().take_while(|b| *b == b' ').count();
                        if n > 0 {
                            i += 1;
                        }
                        if n > 0 && if one { i == hit + 1 } else { n >= m } {
                            " ".repeat(by) + l
                        } else {
                            l.to_string()
                        }
                    })
                    .collect();
                t = lines.join("\n");
            }
        }
        14 => {
            // repeat, drop or move a line
            let mut lines: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
            let i = src.below(lines.len());
            let l = lines[i].clone();
            match src.below(3) {
                0 => lines.insert(i, l),
                1 => {
                    lines.remove(i);
                }
                _ => {
                    lines.remove(i);
                    let j = src.below(lines.len() + 1);
                    lines.insert(j, l);
                }
            }
            t = lines.join("\n");
        }
        15 => {
            // a comment or blank line in some gap
            if let Some((a, _)) = tok(src) {
                let n = t[..a].rfind('\n').map(|p| a - p - 1).unwrap_or(a);
                let n = if src.chance(500) { n } else { src.range(0, 8) };
                let s = *src.pick(&["-- c", "--", "", " ", "{- c -}", "--}", "-- {-", "-- \"", "--c--"]);
                t.insert_str(a, &format!("{}\n{}", s, " ".repeat(n)));
            }
        }
        16 => {
            // many of a token
            if let Some((a, b)) = tok(src) {
                let s = t[a..b].to_string();
                let sep = *src.pick(&["", " ", ", ", ".", " -> ", "\n"]);
                let n = src.range(2, 24);
                t.insert_str(a, &format!("{}{}", s, sep).repeat(n));
            }
        }
        17 => {
            // a word with something at its end
            if let Some((_, b)) = tok(src) {
                t.insert_str(b, *src.pick(&["_", "1", "'", "a", "A", "__", "0", "é", ".a", ".A", ".", "e3", ".0", "s"]));
            }
        }
        _ => {
            // one character
            let a = snap(&t, src.below(t.len() + 1));
            let c = match src.below(4) {
                0 => (32 + src.below(95) as u8) as char,
                1 => *src.pick(&['(', ')', '{', '}', '[', ']', ',', '-', '"', '\'', '\\', '\n', ' ', '.', '|', '=']),
                2 => *src.pick(&['é', '\u{0}', '\t', '\r', '\u{2028}', '😀', '`', ';', '\u{feff}', '\u{7f}', '\u{a0}']),
                _ => std::char::from_u32(src.draw(0x11_0000) as u32).unwrap_or('?'),
            };
            t.insert(a, c);
        }
    }
    t
}

const INSERTED: &[&str] = &[
    "=", ":", "|", ".", ",", "-", ">", "<", "+", "*", "_", "'", "\"", "(", ")", "{", "}", "[", "]", "\\", "/", "1", "a", "A", "&", "!", ";", "`", "\n", "\t", "\r", "\u{c}", "\u{a0}", " ", " 1 ", " a ", " A ", " -> ", " = ", " : ", " | ", ", ", " .. ", " :: ", " in ",
    " of ", " then ", " else ", " as ", " () ", " \"\" ", " {- c -} ", " -- c\n ", "\n ", "--", "()", ".a", ".A", "é", "\n\n", "\nx = 1\n",
];

const REPLACED: &[&str] = &[
    "=", ":", "|", ".", ",", "->", "<-", "=>", "..", "...", "::", "\\", "(", ")", "{", "}", "[", "]", "a", "A", "A.B", "A.b", "1", "1.5", "-1", "\"s\"", "'c'", "_", "()", "in", "of", "then", "else", "let", "case", "if", "as", "where", "type", "alias", "port", "module", "import",
    "exposing", "infix", "+", "-", "[a]", "{ a = 1 }", "(a b)", "(+)", "(,)", ".a", "effect",
];

/// Every text one small edit away (white-space edits only, if so asked).
pub fn neighbours(text: &str, layout: bool, at: &mut dyn FnMut(String) -> bool) {
    let l = lex::lex(text);
    let spans: Vec<(usize, usize)> = l.toks.iter().map(|x| (x.1, x.2)).collect();
    let edit = |a: usize, b: usize, by: &str| -> String {
        let mut t = String::with_capacity(text.len() + by.len());
        t.push_str(&text[..a]);
        t.push_str(by);
        t.push_str(&text[b..]);
        t
    };
    // indentation
    for (p, _) in text.match_indices('\n') {
        let p = p + 1;
        let n = text[p..].bytes().take_while(|b| *b == b' ').count();
        for m in (0..=12).chain(vec![n + 1, n + 2, n + 4, n + 128, n + 256, 255, 256]) {
            if m != n && !at(edit(p, p + n, &" ".repeat(m))) {
                return;
            }
        }
        for by in &["", " ", "\n\n", "\r\n", "\n-- c\n", " -- c\n"] {
            if !at(edit(p - 1, p, by)) {
                return;
            }
        }
    }
    for &(a, b) in &spans {
        for by in &["\n", "\n ", "\n  ", "\n    ", " ", "\t", " {- c -} "] {
            if !at(edit(a, a, by)) {
                return;
            }
        }
        let n = text[..a].bytes().rev().take_while(|b| *b == b' ').count();
        if n > 0 && !at(edit(a - n, a, "")) {
            return;
        }
    }
    if layout {
        return;
    }
    for &(a, b) in &spans {
        let w = &text[a..b];
        let cap: String = w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        for by in &[String::new(), format!("{} {}", w, w), format!("{}{}", w, w), w.to_ascii_uppercase(), w.to_ascii_lowercase(), cap, format!("({})", w), format!("({}", w), format!("{})", w)] {
            if by != w && !at(edit(a, b, by)) {
                return;
            }
        }
        for by in INSERTED {
            if !at(edit(a, a, by)) || !at(edit(b, b, by)) {
                return;
            }
        }
        for by in REPLACED {
            if *by != w && !at(edit(a, b, by)) {
                return;
            }
        }
        if !at(edit(b, text.len(), "")) || !at(edit(0, a, "")) {
            return;
        }
    }
    for x in spans.windows(2) {
        // neighbours change places
        let (p, q) = (&text[x[0].0..x[0].1], &text[x[1].0..x[1].1]);
        let by = format!("{}{}{}", q, &text[x[0].1..x[1].0], p);
        if p != q && !at(edit(x[0].0, x[1].1, &by)) {
            return;
        }
    }
}

/// Text from nothing: pieces of the language in any order.
pub fn soup(src: &mut Src, d: &Dict) -> String {
    let n = src.range(0, 60);
    let mut s = String::new();
    for _ in 0..n {
        match src.below(12) {
            0 => s.push('\n'),
            1 => s.push_str("\n  "),
            2 => s.push(std::char::from_u32(src.draw(0x11_0000) as u32).unwrap_or('?')),
            3 if !d.texts.is_empty() => {
                let i = src.below(d.texts.len());
                s.push_str(&d.texts[i]);
            }
            _ => s.push_str(src.pick(POOL)),
        }
        if src.chance(600) {
            s.push(' ');
        }
    }
    s
}
