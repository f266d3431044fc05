//! Random programs.  Every decision goes through the choice sequence.

use crate::ast::*;
use crate::choice::Src;
use crate::dict::*;
use crate::print::{block_comment_ok, single_ok, triple_ok};

pub const VAR: usize = 0;
pub const QUAL: usize = 1;
pub const ACCESS: usize = 2;
pub const ACCESSFN: usize = 3;
pub const CHR: usize = 4;
pub const STR: usize = 5;
pub const INT: usize = 6;
pub const FLOAT: usize = 7;
pub const OPVAR: usize = 8;
pub const UNIT: usize = 9;
pub const LIST: usize = 10;
pub const TUPLE: usize = 11;
pub const RECORD: usize = 12;
pub const UPDATE: usize = 13;
pub const IF: usize = 14;
pub const LET: usize = 15;
pub const CASE: usize = 16;
pub const LAMBDA: usize = 17;
pub const APP: usize = 18;
pub const BINOP: usize = 19;
pub const KINDS: usize = 20;

const COMMON_INTS: &[u64] = &[4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 25, 30, 31, 32, 40, 50, 60, 63, 64, 80, 99, 100, 120, 127, 128, 200, 250, 255, 256];

pub struct Gen<'a> {
    pub src: &'a mut Src,
    pub d: &'a Dict,
    pub fuel: i64,
    pub w: [u32; KINDS],
    pub depth: usize,
    pub max_depth: usize,
    los: Vec<String>,
    ups: Vec<String>,
    twins: Vec<Expr>,
    /// how often a name is one of those before, per mille
    pub reuse: u32,
    texts: Vec<String>,
    nums: Vec<String>,
}

/// What a trimming or line-splitting function might treat specially.
pub const EDGES: &[char] = &[' ', '\t', '\r', '\u{b}', '\u{c}', '\u{0}', '\u{1c}', '\u{1f}', '\u{7f}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2003}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{200b}', '\u{feff}'];

fn swap_case(s: &str, at: usize) -> String {
    s.char_indices().map(|(i, c)| if i != at { c } else if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect()
}

const DEFAULT_W: [u32; KINDS] = [20, 6, 6, 2, 3, 5, 5, 2, 2, 2, 6, 5, 5, 3, 4, 4, 4, 4, 14, 8];

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src, d: &'a Dict) -> Gen<'a> {
        let fuel = match src.weighted(&[60, 25, 10, 4]) {
            0 => src.range(1, 12),
            1 => src.range(8, 40),
            2 => src.range(30, 120),
            _ => src.range(100, 500),
        } as i64;
        let max_depth = if src.chance(60) { 24 } else { 8 };
        Gen { src, d, fuel, w: DEFAULT_W, depth: 0, max_depth, los: vec![], ups: vec![], twins: vec![], reuse: 90, texts: vec![], nums: vec![] }
    }
    pub fn boost(&mut self, kinds: &[usize], by: u32) {
        for k in kinds {
            self.w[*k] *= by;
        }
    }

    /// lo..=cap, usually near lo; sometimes at or next to a number the parser's source mentions.
    pub fn size(&mut self, lo: usize, typical: usize, cap: usize) -> usize {
        let n = match self.src.weighted(&[800, 140, if self.d.hot { 90 } else { 45 }, 15]) {
            0 => self.src.range(lo, lo.max(typical)),
            1 => self.src.range(lo, (typical * 3).max(lo)),
            2 => {
                let v = if !self.d.ints.is_empty() && self.src.chance(600) {
                    let i = self.src.below(self.d.ints.len());
                    self.d.ints[i]
                } else {
                    *self.src.pick(COMMON_INTS)
                };
                let v = (v.min(1_000_000) as usize + self.src.range(0, 2)).saturating_sub(1);
                v
            }
            _ => self.src.range(lo, cap),
        };
        n.max(lo).min(cap)
    }

    // ------------------------------------------------------------------------------- names

    /// Names to use again.
    pub fn know(&mut self, name: &str) {
        if is_lo(name) {
            self.los.push(name.to_string());
        } else if is_up(name) {
            self.ups.push(name.to_string());
        }
    }

    fn word(&mut self, first: &[char]) -> String {
        const TAIL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
        let n = self.size(1, 8, 300);
        let mut s = String::new();
        s.push(*self.src.pick(first));
        while s.len() < n {
            s.push(*self.src.pick(TAIL) as char);
        }
        s
    }

    /// A name, now and then one used shortly before or one that differs from it by a little.
    pub fn lo(&mut self) -> String {
        if !self.los.is_empty() && self.src.chance(self.reuse) {
            let i = self.src.below(self.los.len());
            let s = self.los[i].clone();
            let s = match self.src.weighted(&[6, 1, 1, 1, 1]) {
                0 => s,
                1 => s + "_",
                2 => s + "1",
                3 => swap_case(&s, 1 + self.src.below(s.len())),
                _ => s[..s.len() - self.src.below(s.len())].to_string(),
            };
            return if is_lo(&s) { s } else { s + "_" };
        }
        let s = self.new_lo();
        if self.los.len() > 5 {
            self.los.remove(0);
        }
        self.los.push(s.clone());
        s
    }

    pub fn up(&mut self) -> String {
        if !self.ups.is_empty() && self.src.chance(self.reuse) {
            let i = self.src.below(self.ups.len());
            let s = self.ups[i].clone();
            return match self.src.weighted(&[6, 1, 1, 1]) {
                0 => s,
                1 => s + "_",
                2 => swap_case(&s, 1 + self.src.below(s.len())),
                _ => s[..s.len() - self.src.below(s.len())].to_string(),
            };
        }
        let s = self.new_up();
        if self.ups.len() > 5 {
            self.ups.remove(0);
        }
        self.ups.push(s.clone());
        s
    }

    fn new_lo(&mut self) -> String {
        const POOL: &[&str] = &["a", "b", "c", "x", "y", "f", "g", "msg", "model", "value", "xs", "view", "update", "map"];
        const ODD: &[&str] = &["infix", "infixl", "infixr", "effect", "a1", "b_", "x_y", "camelCase", "a__b", "z0", "q9Z_", "port_", "main", "a0", "i", "o", "t", "e", "l", "true", "infixA"];
        let s = match self.src.weighted(&[50, 14, 14, 12, 6, if self.d.hot { 16 } else { 4 }]) {
            0 => self.src.pick(POOL).to_string(),
            1 => {
                // keyword with something after it
                let k = self.src.pick(RESERVED).to_string();
                let t = *self.src.pick(&["s", "X", "_", "1", "n", "Id", "0", "e", "t", "er", "Of"]);
                k + t
            }
            2 => self.src.pick(ODD).to_string(),
            3 => {
                let c: Vec<char> = ('a'..='z').collect();
                self.word(&c)
            }
            4 => {
                // something before a keyword
                let k = *self.src.pick(RESERVED);
                let p = *self.src.pick(&["x", "a_", "to", "i", "l9"]);
                p.to_string() + k
            }
            _ => {
                if self.d.lo.is_empty() {
                    "a".to_string()
                } else {
                    let i = self.src.below(self.d.lo.len());
                    let base = self.d.lo[i].clone();
                    match self.src.weighted(&[4, 1, 1]) {
                        0 => base,
                        1 => base + "Xa",
                        _ => format!("x{}", base),
                    }
                }
            }
        };
        if is_lo(&s) {
            s
        } else {
            s + "_"
        }
    }

    fn new_up(&mut self) -> String {
        const POOL: &[&str] = &["A", "B", "Just", "Nothing", "Maybe", "List", "Html", "Msg", "Cmd", "Model", "Http"];
        const ODD: &[&str] = &["T1", "X_", "A_b", "If", "Then", "Else", "Let", "In", "Case", "Of", "Module", "Import", "As", "Exposing", "Type", "Alias", "Port", "Where", "Z9z", "ABC", "A0"];
        let s = match self.src.weighted(&[60, 20, 14, if self.d.hot { 20 } else { 6 }]) {
            0 => self.src.pick(POOL).to_string(),
            1 => self.src.pick(ODD).to_string(),
            2 => {
                let c: Vec<char> = ('A'..='Z').collect();
                self.word(&c)
            }
            _ => {
                if self.d.up.is_empty() {
                    "A".to_string()
                } else {
                    let i = self.src.below(self.d.up.len());
                    self.d.up[i].clone()
                }
            }
        };
        s
    }

    pub fn mod_name(&mut self) -> Vec<String> {
        let n = self.size(1, 2, 12);
        (0..n).map(|_| self.up()).collect()
    }

    pub fn op(&mut self) -> String {
        const POOL: &[&str] = &[
            "+", "-", "*", "/", "//", "^", "==", "/=", "<", ">", "<=", ">=", "&&", "||", "++", "::", "|>", "<|", ">>", "<<", "%", "<*>", ">>=", "=<<", "|=", "|.", "</>", "<?>",
        ];
        const ODD: &[&str] = &[
            "!", "#", "~", "@", "&", "?", "$", "...", "....", "->>", "=>", "==>", "|->", ".+", ":+", "=.", "<-", "-<", "|||", ":::", "===", "->-", "..=", ".:", "->|", "-=", "=-", "|:", ":=", "=:", "-.", "-|", "-:", "+-", "><",
        ];
        for _ in 0..4 {
            let s = match self.src.weighted(&[60, 20, 16, if self.d.hot { 16 } else { 4 }]) {
                0 => self.src.pick(POOL).to_string(),
                1 => self.src.pick(ODD).to_string(),
                2 => {
                    let n = self.size(1, 3, 80);
                    (0..n).map(|_| *self.src.pick(OP_CHARS)).collect()
                }
                _ => {
                    if self.d.ops.is_empty() {
                        "+".to_string()
                    } else {
                        let i = self.src.below(self.d.ops.len());
                        self.d.ops[i].clone()
                    }
                }
            };
            if is_op(&s) {
                return s;
            }
        }
        "+".to_string()
    }

    // ------------------------------------------------------------------------------- literals

    pub fn digits(&mut self) -> String {
        if !self.nums.is_empty() && self.src.chance(40) {
            let i = self.src.below(self.nums.len());
            let mut v = self.nums[i].clone().into_bytes();
            match self.src.below(4) {
                0 => {}
                1 => {
                    let k = self.src.below(v.len());
                    v[k] = b'0' + self.src.below(10) as u8;
                }
                2 => v.push(b'0'),
                _ => v.insert(0, b'0'),
            }
            return String::from_utf8(v).unwrap();
        }
        let s = self.new_digits();
        if self.nums.len() > 5 {
            self.nums.remove(0);
        }
        self.nums.push(s.clone());
        s
    }
    fn new_digits(&mut self) -> String {
        if self.src.chance(60) && !self.d.ints.is_empty() {
            let i = self.src.below(self.d.ints.len());
            let v = self.d.ints[i].saturating_add(self.src.below(2) as u64);
            return v.to_string();
        }
        let n = self.size(1, 2, 120);
        (0..n).map(|_| (b'0' + self.src.below(10) as u8) as char).collect()
    }
    fn sign(&mut self) -> &'static str {
        *self.src.pick(&["", "", "", "", "-", "-", "+"])
    }
    pub fn int(&mut self) -> String {
        self.sign().to_string() + &self.digits()
    }
    pub fn float(&mut self) -> String {
        let s = self.sign().to_string();
        s + &self.digits() + "." + &self.digits()
    }

    pub fn any_char(&mut self) -> char {
        match self.src.weighted(&[50, 20, 10, 8, 8, 4, 5]) {
            0 => (b'a' + self.src.below(26) as u8) as char,
            1 => (32 + self.src.below(95) as u8) as char,
            2 => *self.src.pick(&['\\', '"', '\'', ' ', '-', '{', '}', '(', ')', '\t']),
            3 => *self.src.pick(&['é', 'ß', 'λ', '中', '😀', '\u{301}', '\u{a0}', '\u{2028}', '\u{feff}', 'ü', '¼']),
            4 => {
                let v = self.src.draw(0x11_0000) as u32;
                match std::char::from_u32(v) {
                    Some(c) if c >= ' ' => c,
                    _ => '~',
                }
            }
            6 => *self.src.pick(EDGES),
            _ => {
                if self.d.chars.is_empty() {
                    'n'
                } else {
                    let i = self.src.below(self.d.chars.len());
                    self.d.chars[i]
                }
            }
        }
    }

    fn raw_text(&mut self) -> String {
        const BITS: &[&str] = &[
            "\\\\", "\\\"", "\\n", "\\t", "\\u{1F600}", "\"", "\"\"", "--", "{-", "-}", "'", "in", "\\'", " ", "  ", "if", "\\x", "()", "\\\\\\\"", "//", "->", "=", "'\"'", "\u{e9}", "{", "}",
        ];
        let n = self.size(0, 4, 200);
        let mut s = String::new();
        let odd = *self.src.pick(&[0u32, 300, 900]);
        if self.d.hot && self.src.chance(80) && !self.d.texts.is_empty() {
            s.push_str(self.src.pick(&self.d.texts));
        }
        while s.len() < n * 2 {
            if self.src.chance(odd) {
                if self.src.chance(if self.d.hot { 150 } else { 60 }) && !self.d.texts.is_empty() {
                    let i = self.src.below(self.d.texts.len());
                    s.push_str(&self.d.texts[i]);
                } else {
                    s.push_str(self.src.pick(BITS));
                }
            } else {
                s.push(self.any_char());
            }
        }
        self.edges(&mut s);
        s
    }

    /// Something odd at the very beginning or end.
    fn edges(&mut self, s: &mut String) {
        if self.src.chance(80) {
            let c = *self.src.pick(EDGES);
            if self.src.chance(500) {
                s.insert(0, c);
            } else {
                s.push(c);
            }
        }
    }

    /// A text used shortly before, or one that differs from it by a character.
    fn old_text(&mut self) -> Option<String> {
        if self.texts.is_empty() || !self.src.chance(50) {
            return None;
        }
        let i = self.src.below(self.texts.len());
        let mut c: Vec<char> = self.texts[i].chars().collect();
        if !c.is_empty() && !self.src.chance(250) {
            // more often near the end
            let a = self.src.below(c.len());
            let b = self.src.below(c.len());
            let k = a.max(b);
            match self.src.below(6) {
                0 => c.insert(k, 'a'),
                1 => {
                    c.remove(k);
                }
                _ => c[k] = if c[k] == 'a' { 'b' } else { 'a' },
            }
        }
        Some(c.into_iter().collect())
    }
    fn keep_text(&mut self, s: &str) {
        if self.texts.len() > 3 {
            self.texts.remove(0);
        }
        self.texts.push(s.to_string());
    }

    pub fn string(&mut self) -> String {
        if let Some(s) = self.old_text() {
            if single_ok(&s) || triple_ok(&s) {
                return s;
            }
        }
        let s = self.new_string();
        self.keep_text(&s);
        s
    }

    fn new_string(&mut self) -> String {
        for _ in 0..3 {
            let mut s = self.raw_text();
            if self.src.chance(80) {
                // several lines
                let k = self.src.range(1, 4);
                for _ in 0..k {
                    let mut p = self.src.below(s.len() + 1);
                    while !s.is_char_boundary(p) {
                        p -= 1;
                    }
                    s.insert_str(p, *self.src.pick(&["\n", "\n    ", "\n\n", "\n--", "\nx = 1\n"]));
                }
            }
            if single_ok(&s) || triple_ok(&s) {
                return s;
            }
            let t: String = s.chars().filter(|c| *c != '"' && *c != '\\').collect();
            if self.src.chance(500) && (single_ok(&t) || triple_ok(&t)) {
                return t;
            }
        }
        "s".to_string()
    }

    pub fn character(&mut self) -> char {
        match self.src.below(4) {
            0 | 1 => self.any_char(),
            2 => *self.src.pick(&['\'', '"', '\\', '\n', '\r', '\t', ' ', 'n', 'x', 't', 'r', 'u', '0']),
            _ => self.src.below(256) as u8 as char,
        }
    }

    pub fn comment(&mut self) -> String {
        let s = match self.old_text() {
            Some(s) => s,
            None => self.new_comment(),
        };
        let s = self.fit_comment(s);
        self.keep_text(&s);
        s
    }

    fn new_comment(&mut self) -> String {
        const BITS: &[&str] = &[
            " ", "--", "{-", "{", "}", "-", "\"", "\"\"\"", "'", "|", " todo", "in", "module Main", " = ", "(", "\t", "ü", "\\", "x = 1", "->", "import A", "{{", "}}", "- }", "http://x",
        ];
        let n = self.size(0, 5, 120);
        let mut s = String::new();
        let odd = *self.src.pick(&[100u32, 400, 900]);
        if self.d.hot && self.src.chance(80) && !self.d.texts.is_empty() {
            s.push_str(self.src.pick(&self.d.texts));
        }
        for _ in 0..n {
            if self.src.chance(odd) {
                if self.src.chance(if self.d.hot { 150 } else { 60 }) && !self.d.texts.is_empty() {
                    let i = self.src.below(self.d.texts.len());
                    s.push_str(&self.d.texts[i]);
                } else {
                    s.push_str(self.src.pick(BITS));
                }
            } else {
                s.push(self.any_char());
            }
        }
        if self.src.chance(250) {
            let k = self.src.range(1, 3);
            for _ in 0..k {
                let mut p = self.src.below(s.len() + 1);
                while !s.is_char_boundary(p) {
                    p -= 1;
                }
                s.insert_str(p, *self.src.pick(&["\n", "\n   ", "\n\n", "\n--", "\nx = 1\n"]));
            }
        }
        self.edges(&mut s);
        s
    }

    fn fit_comment(&mut self, mut s: String) -> String {
        // within the language: a text with a line break must be a block comment, and block
        // comments do not nest
        while s.contains("-}") {
            s = s.replace("-}", "}");
        }
        if s.contains('\n') {
            while s.contains("{-") {
                s = s.replace("{-", "{");
            }
            while s.contains("-}") {
                s = s.replace("-}", "}");
            }
            if !block_comment_ok(&s) || s.contains("-}") {
                s = s.replace('-', "");
            }
        }
        s
    }

    // ---------------------------------------------------------------------------- expressions

    fn spend(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel >= 0
    }

    pub fn leaf(&mut self) -> Expr {
        if !self.twins.is_empty() && self.src.chance(50) {
            let i = self.src.below(self.twins.len());
            return self.twins[i].clone();
        }
        let e = self.new_leaf();
        if self.twins.len() > 5 {
            self.twins.remove(0);
        }
        self.twins.push(e.clone());
        e
    }

    fn new_leaf(&mut self) -> Expr {
        let mut w = [0u32; 10];
        w.copy_from_slice(&self.w[..10]);
        match self.src.weighted(&w) {
            VAR => var(&self.lo()),
            QUAL => {
                let n = self.mod_name();
                Expr::Variable(n)
            }
            ACCESS => self.access(),
            ACCESSFN => Expr::AccessFunction(self.lo()),
            CHR => Expr::Character(self.character()),
            STR => Expr::String(self.string()),
            INT => Expr::Integer(self.int()),
            FLOAT => Expr::Float(self.float()),
            OPVAR => {
                if self.src.chance(250) {
                    let n = self.size(1, 3, 40);
                    Expr::Variable(vec![",".repeat(n)])
                } else {
                    Expr::Variable(vec![self.op()])
                }
            }
            _ => Expr::Tuple(vec![]),
        }
    }

    pub fn access(&mut self) -> Expr {
        let base = if self.src.chance(500) { vec![self.lo()] } else { self.mod_name() };
        let n = self.size(1, 2, 40);
        let names = (0..n).map(|_| self.lo()).collect();
        Expr::Access(Box::new(Expr::Variable(base)), names)
    }

    pub fn many(&mut self, lo: usize, typical: usize) -> Vec<Expr> {
        let n = self.size(lo, typical, 280);
        let mut v: Vec<Expr> = (0..n).map(|i| if i > 12 { self.leaf() } else { self.expr() }).collect();
        self.echo(&mut v);
        v
    }

    /// Now and then some elements are the same as an earlier one.
    fn echo<T: Clone>(&mut self, v: &mut Vec<T>) {
        if v.len() > 1 && self.src.chance(60) {
            let i = self.src.below(v.len());
            let j = self.src.below(v.len());
            v[j] = v[i].clone();
        }
        if v.len() > 1 && self.src.chance(15) {
            let x = v[0].clone();
            for y in v.iter_mut() {
                *y = x.clone();
            }
        }
    }

    pub fn fields(&mut self, lo: usize) -> Vec<(String, Expr)> {
        if self.src.chance(100) {
            let n = self.size(lo.max(1), 3, 60);
            return (0..n)
                .map(|_| {
                    let k = self.lo();
                    (k.clone(), var(&k))
                })
                .collect();
        }
        let n = self.size(lo, 3, 120);
        let mut v = (0..n)
            .map(|i| {
                let k = self.lo();
                let e = if i > 8 { self.leaf() } else { self.expr() };
                (k, e)
            })
            .collect();
        self.echo(&mut v);
        v
    }

    pub fn expr(&mut self) -> Expr {
        if !self.spend() || self.depth >= self.max_depth {
            return self.leaf();
        }
        let w = self.w;
        let k = self.src.weighted(&w);
        if k < 10 {
            return self.leaf();
        }
        self.kind(k)
    }

    /// What a construct comes to, now and then a name used shortly before.
    fn body(&mut self) -> Expr {
        if !self.los.is_empty() && self.src.chance(if self.reuse > 200 { self.reuse } else { self.reuse / 2 }) {
            let i = self.src.below(self.los.len());
            return var(&self.los[i].clone());
        }
        self.expr()
    }

    pub fn kind(&mut self, k: usize) -> Expr {
        self.depth += 1;
        let e = match k {
            LIST => Expr::List(self.many(0, 3)),
            TUPLE => Expr::Tuple(self.many(2, 3)),
            RECORD => Expr::Record(self.fields(0)),
            UPDATE => {
                let n = self.lo();
                Expr::RecordUpdate(n, self.fields(1))
            }
            IF => {
                let mut v = vec![self.expr(), self.expr(), self.expr()];
                self.echo(&mut v);
                let c = v.pop().unwrap();
                let b = v.pop().unwrap();
                let a = v.pop().unwrap();
                Expr::If(Box::new(a), Box::new(b), Box::new(c))
            }
            LET => {
                let n = self.size(1, 3, 40);
                let mut es: Vec<LetEntry> = (0..n).map(|_| self.let_entry()).collect();
                self.echo(&mut es);
                Expr::Let(es, Box::new(self.body()))
            }
            CASE => {
                let e = self.expr();
                let n = self.size(1, 3, 60);
                let mut bs: Vec<(Expr, Expr)> = (0..n)
                    .map(|_| {
                        let p = self.pattern();
                        if self.src.chance(40) {
                            return (p.clone(), p);
                        }
                        (p, self.body())
                    })
                    .collect();
                self.echo(&mut bs);
                Expr::Case(Box::new(e), bs)
            }
            LAMBDA => {
                let n = self.size(1, 2, 30);
                let mut a = (0..n).map(|_| self.pattern()).collect();
                self.echo(&mut a);
                Expr::Lambda(a, Box::new(self.body()))
            }
            APP => {
                let n = self.size(1, 2, 60);
                let mut f = self.head();
                for _ in 0..n {
                    let a = self.expr();
                    f = Expr::Application(Box::new(f), Box::new(a));
                }
                f
            }
            BINOP => {
                let n = self.size(1, 2, 60);
                let mut parts = vec![];
                for _ in 0..n {
                    let l = self.expr();
                    parts.push((l, self.op()));
                }
                self.echo(&mut parts);
                let mut e = if self.src.chance(50) { parts[0].0.clone() } else { self.expr() };
                for (l, op) in parts.into_iter().rev() {
                    e = Expr::BinOp(Box::new(Expr::Variable(vec![op])), Box::new(l), Box::new(e));
                }
                e
            }
            _ => self.leaf(),
        };
        self.depth -= 1;
        e
    }

    fn head(&mut self) -> Expr {
        match self.src.weighted(&[60, 10, 10, 10]) {
            0 => var(&self.lo()),
            1 => Expr::Variable(self.mod_name()),
            2 => self.access(),
            _ => self.expr(),
        }
    }

    /// `inner` wrapped n times in constructs of the given kinds.
    pub fn nest(&mut self, kinds: &[usize], n: usize, inner: Expr) -> Expr {
        let mut e = inner;
        for _ in 0..n {
            let k = *self.src.pick(kinds);
            let saved = self.fuel;
            self.fuel = 0;
            e = self.wrap(k, e);
            self.fuel = saved;
        }
        e
    }

    fn wrap(&mut self, k: usize, e: Expr) -> Expr {
        let b = Box::new;
        match k {
            LIST => {
                let mut l = vec![e];
                if self.src.chance(300) {
                    l.push(self.leaf());
                }
                Expr::List(l)
            }
            TUPLE => {
                let x = self.leaf();
                if self.src.chance(500) {
                    Expr::Tuple(vec![x, e])
                } else {
                    Expr::Tuple(vec![e, x])
                }
            }
            RECORD => Expr::Record(vec![(self.lo(), e)]),
            UPDATE => Expr::RecordUpdate(self.lo(), vec![(self.lo(), e)]),
            IF => {
                let x = self.leaf();
                let y = self.leaf();
                match self.src.below(3) {
                    0 => Expr::If(b(x), b(y), b(e)),
                    1 => Expr::If(b(x), b(e), b(y)),
                    _ => Expr::If(b(e), b(x), b(y)),
                }
            }
            LET => {
                let x = self.leaf();
                if self.src.chance(500) {
                    Expr::Let(vec![LetEntry::LetBinding(var(&self.lo()), e)], b(x))
                } else {
                    Expr::Let(vec![LetEntry::LetBinding(var(&self.lo()), x)], b(e))
                }
            }
            CASE => {
                let x = self.leaf();
                let p = self.pattern();
                match self.src.below(3) {
                    0 => Expr::Case(b(x), vec![(p, e)]),
                    1 => {
                        let q = self.pattern();
                        let y = self.leaf();
                        Expr::Case(b(x), vec![(p, e), (q, y)])
                    }
                    _ => Expr::Case(b(e), vec![(p, x)]),
                }
            }
            LAMBDA => Expr::Lambda(vec![self.pattern()], b(e)),
            APP => Expr::Application(b(var(&self.lo())), b(e)),
            BINOP => {
                let op = Expr::Variable(vec![self.op()]);
                let x = self.leaf();
                if self.src.chance(500) {
                    Expr::BinOp(b(op), b(x), b(e))
                } else {
                    Expr::BinOp(b(op), b(e), b(x))
                }
            }
            _ => e,
        }
    }

    pub fn let_entry(&mut self) -> LetEntry {
        match self.src.weighted(&[50, 15, 20, 20]) {
            0 => {
                let n = self.lo();
                LetEntry::LetBinding(var(&n), self.expr())
            }
            1 => {
                let t = self.target();
                LetEntry::LetBinding(t, self.expr())
            }
            2 => LetEntry::LetFunction(self.function(false, 1)),
            _ => LetEntry::LetFunction(self.function(true, 0)),
        }
    }

    pub fn target(&mut self) -> Expr {
        match self.src.below(4) {
            0 => {
                let n = self.size(2, 2, 30);
                Expr::Tuple((0..n).map(|_| self.pattern()).collect())
            }
            1 => {
                let n = self.size(1, 3, 30);
                Expr::Record(
                    (0..n)
                        .map(|_| {
                            let k = self.lo();
                            (k.clone(), var(&k))
                        })
                        .collect(),
                )
            }
            2 => {
                let n = self.size(0, 3, 30);
                Expr::List((0..n).map(|_| self.pattern()).collect())
            }
            _ => var("_"),
        }
    }

    /// Argument and branch patterns.
    pub fn pattern(&mut self) -> Expr {
        self.fuel -= 1;
        let small = self.fuel < 0 || self.depth >= self.max_depth;
        self.depth += 1;
        let e = match self.src.weighted(if small { &[40, 10, 10, 4, 4, 4, 2, 0, 0, 0, 0, 0, 0] } else { &[30, 10, 8, 3, 3, 3, 2, 14, 8, 6, 8, 6, 5] }) {
            0 => var(&self.lo()),
            1 => var("_"),
            2 => Expr::Variable(self.mod_name()),
            3 => Expr::Integer(self.int()),
            4 => Expr::String(self.string()),
            5 => Expr::Character(self.character()),
            6 => Expr::Tuple(vec![]),
            7 => {
                let n = self.size(1, 2, 12);
                let mut f = Expr::Variable(self.mod_name());
                for _ in 0..n {
                    let a = self.pattern();
                    f = Expr::Application(Box::new(f), Box::new(a));
                }
                f
            }
            8 => {
                let a = self.pattern();
                let b = self.pattern();
                Expr::BinOp(Box::new(Expr::Variable(vec!["::".to_string()])), Box::new(a), Box::new(b))
            }
            9 => {
                let a = self.pattern();
                let n = self.lo();
                Expr::BinOp(Box::new(Expr::Variable(vec!["as".to_string()])), Box::new(a), Box::new(var(&n)))
            }
            10 => {
                let n = self.size(2, 2, 12);
                Expr::Tuple((0..n).map(|_| self.pattern()).collect())
            }
            11 => {
                let n = self.size(0, 3, 12);
                Expr::List((0..n).map(|_| self.pattern()).collect())
            }
            _ => {
                let n = self.size(1, 3, 20);
                Expr::Record(
                    (0..n)
                        .map(|_| {
                            let k = self.lo();
                            (k.clone(), var(&k))
                        })
                        .collect(),
                )
            }
        };
        self.depth -= 1;
        e
    }

    pub fn function(&mut self, sig: bool, min_args: usize) -> Function {
        let name = if self.src.chance(60) { self.op() } else { self.lo() };
        let n = self.size(min_args, 2, 40);
        let signature = if sig { Some(FunctionSignature { name: name.clone(), type_: self.type_() }) } else { None };
        let mut args: Vec<Expr> = (0..n).map(|_| self.pattern()).collect();
        self.echo(&mut args);
        let body = if !args.is_empty() && self.src.chance(30) { args[0].clone() } else { self.expr() };
        Function { signature, definition: FunctionDefinition { name, args, body } }
    }

    // ----------------------------------------------------------------------------------- types

    pub fn type_(&mut self) -> Type {
        self.fuel -= 1;
        let small = self.fuel < 0 || self.depth >= self.max_depth;
        self.depth += 1;
        let t = match self.src.weighted(if small { &[40, 30, 0, 0, 0, 2, 0] } else { &[30, 14, 24, 10, 6, 10, 16] }) {
            0 => Type::TypeConstructor(if self.src.chance(250) { self.mod_name() } else { vec![self.up()] }, vec![]),
            1 => Type::TypeVariable(self.lo()),
            2 => {
                let n = self.size(1, 2, 40);
                let name = if self.src.chance(250) { self.mod_name() } else { vec![self.up()] };
                let mut v = (0..n).map(|_| self.type_()).collect();
                self.echo(&mut v);
                Type::TypeConstructor(name, v)
            }
            3 => Type::TypeRecord(self.type_fields(0)),
            4 => {
                let v = self.lo();
                Type::TypeRecordConstructor(Box::new(Type::TypeVariable(v)), self.type_fields(1))
            }
            5 => {
                if small || self.src.chance(150) {
                    Type::TypeTuple(vec![])
                } else {
                    let n = self.size(2, 3, 60);
                    let mut v = (0..n).map(|_| self.type_()).collect();
                    self.echo(&mut v);
                    Type::TypeTuple(v)
                }
            }
            _ => {
                let n = self.size(1, 2, 60);
                let mut parts: Vec<Type> = (0..n).map(|_| self.type_()).collect();
                self.echo(&mut parts);
                let mut t = if self.src.chance(60) { parts[0].clone() } else { self.type_() };
                for p in parts.into_iter().rev() {
                    t = Type::TypeApplication(Box::new(p), Box::new(t));
                }
                t
            }
        };
        self.depth -= 1;
        t
    }

    pub fn type_fields(&mut self, lo: usize) -> Vec<(String, Type)> {
        let n = self.size(lo, 3, 80);
        let mut v = (0..n)
            .map(|_| {
                let k = self.lo();
                (k, self.type_())
            })
            .collect();
        self.echo(&mut v);
        v
    }

    pub fn type_nest(&mut self, n: usize, inner: Type) -> Type {
        let mut t = inner;
        let b = Box::new;
        for _ in 0..n {
            let x = Type::TypeVariable(self.lo());
            t = match self.src.below(6) {
                0 => Type::TypeConstructor(vec![self.up()], vec![t]),
                1 => Type::TypeRecord(vec![(self.lo(), t)]),
                2 => Type::TypeTuple(vec![t, x]),
                3 => Type::TypeApplication(b(t), b(x)),
                4 => Type::TypeApplication(b(x), b(t)),
                _ => Type::TypeRecordConstructor(b(x), vec![(self.lo(), t)]),
            };
        }
        t
    }

    // ------------------------------------------------------------------------------ statements

    pub fn exports(&mut self) -> ExportSet {
        if self.src.chance(250) {
            return ExportSet::AllExport;
        }
        let n = self.size(1, 3, 150);
        let mut v = (0..n).map(|_| self.export_item()).collect();
        self.echo(&mut v);
        ExportSet::SubsetExport(v)
    }

    pub fn export_item(&mut self) -> ExportSet {
        match self.src.weighted(&[50, 15, 20, 15, 15]) {
            0 => ExportSet::FunctionExport(self.lo()),
            1 => ExportSet::FunctionExport(self.op()),
            2 => ExportSet::TypeExport(self.up(), None),
            3 => ExportSet::TypeExport(self.up(), Some(Box::new(ExportSet::AllExport))),
            _ => {
                let n = self.size(1, 2, 60);
                let mut l = (0..n).map(|_| ExportSet::FunctionExport(self.up())).collect();
                self.echo(&mut l);
                ExportSet::TypeExport(self.up(), Some(Box::new(ExportSet::SubsetExport(l))))
            }
        }
    }

    pub fn header(&mut self) -> Statement {
        let name = self.mod_name();
        match self.src.weighted(&[60, 20, 20]) {
            0 => Statement::ModuleDeclaration(name, self.exports()),
            1 => Statement::PortModuleDeclaration(name, self.exports()),
            _ => {
                let n = self.size(1, 2, 12);
                let mut w = (0..n).map(|_| (self.lo(), self.up())).collect();
                self.echo(&mut w);
                Statement::EffectModuleDeclaration(name, w, self.exports())
            }
        }
    }

    pub fn import(&mut self) -> Statement {
        let name = self.mod_name();
        let alias = match self.src.weighted(&[65, 30, 5]) {
            0 => None,
            1 => Some(self.up()),
            _ => name.last().cloned(),
        };
        let ex = if self.src.chance(600) { Some(self.exports()) } else { None };
        Statement::ImportStatement(name, alias, ex)
    }

    fn decl_name(&mut self) -> Type {
        let n = self.size(0, 1, 30);
        Type::TypeConstructor(vec![self.up()], (0..n).map(|_| Type::TypeVariable(self.lo())).collect())
    }

    pub fn type_alias(&mut self) -> Statement {
        let n = self.decl_name();
        let t = match (&n, self.src.chance(60)) {
            // what it stands for looks like its name
            (Type::TypeConstructor(name, args), true) => {
                let name = if self.src.chance(500) { name.clone() } else { self.mod_name() };
                Type::TypeConstructor(name, args.clone())
            }
            _ => self.type_(),
        };
        Statement::TypeAliasDeclaration(n, t)
    }

    pub fn type_decl(&mut self) -> Statement {
        let name = self.decl_name();
        let n = self.size(1, 3, 150);
        let mut c = (0..n)
            .map(|_| {
                if self.src.chance(60) {
                    return name.clone();
                }
                let name = vec![self.up()];
                let k = self.size(0, 1, 40);
                Type::TypeConstructor(name, (0..k).map(|_| self.type_()).collect())
            })
            .collect();
        self.echo(&mut c);
        Statement::TypeDeclaration(name, c)
    }

    pub fn port(&mut self) -> Statement {
        let name = self.lo();
        if self.src.chance(400) {
            let n = self.size(0, 2, 30);
            let args = (0..n).map(|_| self.lo()).collect();
            Statement::PortDeclaration(name, args, self.expr())
        } else {
            Statement::PortTypeDeclaration(name, self.type_())
        }
    }

    pub fn infix(&mut self) -> Statement {
        let a = match self.src.below(3) {
            0 => Assoc::L,
            1 => Assoc::R,
            _ => Assoc::N,
        };
        let p = match self.src.below(6) {
            0..=3 => self.src.below(10) as i64,
            4 => {
                if self.d.ints.is_empty() {
                    10
                } else {
                    let i = self.src.below(self.d.ints.len());
                    (self.d.ints[i].min(i64::max_value() as u64 - 1) as i64).saturating_add(self.src.below(2) as i64)
                }
            }
            _ => {
                let bits = self.src.range(0, 63);
                let v = self.src.draw(u64::max_value()) >> (64 - bits.max(1));
                (v & i64::max_value() as u64) as i64
            }
        };
        let n = if self.src.chance(300) { self.lo() } else { self.op() };
        Statement::InfixDeclaration(a, p, n)
    }

    pub fn top_function(&mut self) -> Statement {
        let sig = self.src.chance(500);
        Statement::Function(self.function(sig, 0))
    }

    pub fn statement(&mut self) -> Statement {
        match self.src.weighted(&[50, 10, 12, 8, 8, 5, 12]) {
            0 => self.top_function(),
            1 => self.import(),
            2 => self.type_decl(),
            3 => self.type_alias(),
            4 => self.port(),
            5 => self.infix(),
            _ => Statement::Comment(self.comment()),
        }
    }

    /// A file in the usual order.
    pub fn module(&mut self) -> Vec<Statement> {
        let mut v = vec![];
        if self.src.chance(150) {
            v.push(Statement::Comment(self.comment()));
        }
        if self.src.chance(700) {
            v.push(self.header());
        }
        if self.src.chance(200) {
            v.push(Statement::Comment(self.comment()));
        }
        let n = self.size(0, 2, 30);
        for _ in 0..n {
            v.push(self.import());
        }
        let n = self.size(if v.is_empty() { 1 } else { 0 }, 3, 60);
        for i in 0..n {
            if i > 8 {
                self.fuel = self.fuel.min(5);
            }
            let s = self.statement();
            v.push(s);
        }
        if v.len() > 1 && self.src.chance(60) {
            // a declaration once more
            let i = self.src.below(v.len());
            match v[i] {
                Statement::ModuleDeclaration(..) | Statement::PortModuleDeclaration(..) | Statement::EffectModuleDeclaration(..) => {}
                _ => {
                    let s = v[i].clone();
                    v.push(s);
                }
            }
        }
        v
    }

    pub fn def(&mut self, body: Expr) -> Statement {
        let name = self.lo();
        Statement::Function(Function { signature: None, definition: FunctionDefinition { name, args: vec![], body } })
    }
}
