//! Literals found in the parser's own source, used to bias the generators (sizes at and around
//! the numbers it mentions, names and texts it mentions).  Purely a source of interesting inputs:
//! no check depends on what is or is not found here.

use std::path::Path;

#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub lo: Vec<String>,
    pub up: Vec<String>,
    pub ops: Vec<String>,
    pub texts: Vec<String>,
    pub chars: Vec<char>,
    /// Something in it is not in the sources this harness was written for: worth trying more often.
    pub hot: bool,
}

/// What the sources contained when this harness was written.
const BASELINE: &str = include_str!("baseline.txt");

fn lines(d: &Dict) -> String {
    let mut s = String::new();
    for i in &d.ints {
        s.push_str(&format!("i {}\n", i));
    }
    for w in d.lo.iter().chain(&d.up).chain(&d.ops) {
        s.push_str(&format!("w {}\n", w));
    }
    for t in &d.texts {
        s.push_str(&format!("t {:?}\n", t));
    }
    for c in &d.chars {
        s.push_str(&format!("c {:?}\n", c));
    }
    s
}

/// What to keep in `baseline.txt`.
pub fn baseline(dir: &str) -> String {
    let mut d = read(dir);
    tidy(&mut d);
    lines(&d)
}

fn heat<T: Clone>(v: &mut Vec<T>, old: &dyn Fn(&T) -> bool) -> bool {
    let new: Vec<T> = v.iter().filter(|x| !old(x)).cloned().collect();
    if new.is_empty() {
        return false;
    }
    while v.len() < 3 * new.len() || v.iter().filter(|x| !old(x)).count() * 3 < v.len() * 2 {
        v.extend(new.iter().cloned());
    }
    true
}

pub const RESERVED: &[&str] = &[
    "module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else", "let", "in", "case", "of",
];
pub const RESERVED_OPS: &[&str] = &["=", ".", "..", "->", "--", "|", ":"];

pub fn is_lo(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map(|c| c.is_ascii_lowercase()).unwrap_or(false)
        && c.all(|c| c.is_ascii_alphanumeric() || c == '_')
        && !RESERVED.contains(&s)
}
pub fn is_up(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map(|c| c.is_ascii_uppercase()).unwrap_or(false) && c.all(|c| c.is_ascii_alphanumeric() || c == '_')
}
pub const OP_CHARS: &[char] = &['+', '-', '*', '/', '=', '.', '$', '<', '>', ':', '&', '|', '^', '?', '%', '#', '@', '~', '!'];
pub fn is_op(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| OP_CHARS.contains(&c)) && !RESERVED_OPS.contains(&s) && !s.contains("--")
}

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut es: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                files(&p, out);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
}

pub fn harvest(dir: &str) -> Dict {
    let mut d = read(dir);
    tidy(&mut d);
    let known: std::collections::HashSet<&str> = BASELINE.lines().collect();
    let text = |t: &String| known.contains(format!("t {:?}", t).as_str());
    let mut hot = heat(&mut d.ints, &|i| known.contains(format!("i {}", i).as_str()));
    let word = |w: &String| known.contains(format!("w {}", w).as_str());
    hot |= heat(&mut d.lo, &word);
    hot |= heat(&mut d.up, &word);
    hot |= heat(&mut d.ops, &word);
    hot |= heat(&mut d.texts, &text);
    hot |= heat(&mut d.chars, &|c| known.contains(format!("c {:?}", c).as_str()));
    d.hot = hot;
    d
}

fn read(dir: &str) -> Dict {
    let mut d = Dict::default();
    let mut fs = vec![];
    files(Path::new(dir), &mut fs);
    for f in fs {
        if let Ok(t) = std::fs::read_to_string(&f) {
            let cut = t.find("#[cfg(test)]").unwrap_or(t.len());
            scan(&t[..cut], &mut d);
        }
    }
    d
}

fn tidy(d: &mut Dict) {
    d.ints.sort();
    d.ints.dedup();
    d.lo.sort();
    d.lo.dedup();
    d.up.sort();
    d.up.dedup();
    d.ops.sort();
    d.ops.dedup();
    d.texts.sort();
    d.texts.dedup();
    d.chars.sort();
    d.chars.dedup();
}

fn add_text(t: &str, d: &mut Dict) {
    if t.is_empty() || t.len() > 60 {
        return;
    }
    if let Ok(n) = t.parse::<u64>() {
        d.ints.push(n);
    }
    for w in t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
        if is_lo(w) {
            d.lo.push(w.to_string());
        } else if is_up(w) {
            d.up.push(w.to_string());
        }
    }
    if is_op(t) {
        d.ops.push(t.to_string());
    }
    d.texts.push(t.to_string());
}

fn scan(t: &str, d: &mut Dict) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == 'r' && (c.get(i + 1) == Some(&'"') || c.get(i + 1) == Some(&'#')) && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut j = i + 1;
            let mut h = 0;
            while c.get(j) == Some(&'#') {
                h += 1;
                j += 1;
            }
            if c.get(j) != Some(&'"') {
                i += 1;
                continue;
            }
            j += 1;
            let st = j;
            while j < c.len() && !(c[j] == '"' && (0..h).all(|k| c.get(j + 1 + k) == Some(&'#'))) {
                j += 1;
            }
            let s: String = c[st..j.min(c.len())].iter().collect();
            add_text(&s, d);
            // numbers inside a pattern, e.g. {0,31}
            let mut n = String::new();
            for ch in s.chars().chain(" ".chars()) {
                if ch.is_ascii_digit() {
                    n.push(ch);
                } else {
                    if let Ok(v) = n.parse() {
                        d.ints.push(v);
                    }
                    n.clear();
                }
            }
            i = j + 1 + h;
        } else if ch == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    match c.get(i) {
                        Some('n') => s.push('\n'),
                        Some('t') => s.push('\t'),
                        Some('r') => s.push('\r'),
                        Some(x) => s.push(*x),
                        None => {}
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            add_text(&s, d);
        } else if ch == '\'' {
            // character literal or lifetime
            if c.get(i + 1) == Some(&'\\') {
                if let Some(x) = c.get(i + 2) {
                    d.chars.push(match x {
                        'n' => '\n',
                        't' => '\t',
                        x => *x,
                    });
                }
                i += 4;
            } else if c.get(i + 2) == Some(&'\'') {
                d.chars.push(c[i + 1]);
                i += 3;
            } else {
                i += 1;
            }
        } else if ch.is_ascii_digit() {
            let mut s = String::new();
            let hex = ch == '0' && c.get(i + 1) == Some(&'x');
            if hex {
                i += 2;
            }
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                if c[i] != '_' {
                    s.push(c[i]);
                }
                i += 1;
            }
            let digits: String = s.chars().take_while(|c| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() }).collect();
            if let Ok(n) = u64::from_str_radix(&digits, if hex { 16 } else { 10 }) {
                d.ints.push(n);
            }
        } else if ch.is_alphabetic() || ch == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}
