//! A reference model of the language: a plain recursive descent recogniser written from the grammar
//! this parser implements, with the AST it should build. It shares no code and no library with the
//! parser. Any text can be given to it, so it is the oracle for edited and malformed texts, for
//! which there is no generated AST to compare with.
//!
//! Where the grammar is more generous than Elm's (patterns may be any expression, declarations may
//! share a line, a signature may have another name than its definition), so is the model.

use crate::ast::*;

type P<T> = Option<(usize, T)>;

const RESERVED: &[&str] = &["module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else", "let", "in", "case", "of"];
const RESERVED_OPS: &[&str] = &["=", ".", "..", "->", "--", "|", ":"];
const OPCHARS: &str = "-+\\/*=.$<>:&|^?%#@~!";

/// What a line break demands of the indentation of the next line.
#[derive(Clone, Copy, PartialEq)]
enum Rel {
    Same,
    More,
    NotLess,
}
use Rel::*;

pub struct Ref<'a> {
    t: &'a str,
    b: &'a [u8],
}

pub fn module(text: &str) -> Option<Vec<Statement>> {
    let r = Ref { t: text, b: text.as_bytes() };
    let (p, v) = r.statements(0)?;
    if p == text.len() {
        Some(v)
    } else {
        None
    }
}

impl<'a> Ref<'a> {
    // ------------------------------------------------------------------------------- characters

    fn at(&self, p: usize) -> u8 {
        *self.b.get(p).unwrap_or(&0)
    }
    fn is(&self, p: usize, s: &str) -> Option<usize> {
        if self.b[p..].starts_with(s.as_bytes()) {
            Some(p + s.len())
        } else {
            None
        }
    }
    fn run(&self, p: usize, f: impl Fn(u8) -> bool) -> usize {
        let mut q = p;
        while q < self.b.len() && f(self.b[q]) {
            q += 1;
        }
        q
    }
    fn run1(&self, p: usize, f: impl Fn(u8) -> bool) -> Option<usize> {
        let q = self.run(p, f);
        if q > p {
            Some(q)
        } else {
            None
        }
    }
    fn cut(&self, p: usize, q: usize) -> String {
        self.t[p..q].to_string()
    }
    /// one or more spaces
    fn sp(&self, p: usize) -> Option<usize> {
        self.run1(p, |c| c == b' ')
    }
    fn sp0(&self, p: usize) -> usize {
        self.run(p, |c| c == b' ')
    }
    /// spaces and line breaks whatever the indentation, no comments
    fn sn(&self, p: usize) -> Option<usize> {
        self.run1(p, |c| c == b' ' || c == b'\n')
    }
    fn sn0(&self, p: usize) -> usize {
        self.sn(p).unwrap_or(p)
    }
    /// any white space
    fn any_ws0(&self, p: usize) -> usize {
        self.run(p, |c| b" \t\r\n".contains(&c))
    }
    fn any_ws(&self, p: usize) -> Option<usize> {
        self.run1(p, |c| b" \t\r\n".contains(&c))
    }

    /// A gap between two tokens of one declaration: spaces, comments, line breaks. Gives the
    /// indentation that what follows has.
    fn gap(&self, p: usize, ind: usize, rel: Rel) -> P<usize> {
        let mut q = p;
        let mut col = ind;
        let mut broke = false;
        loop {
            match self.at(q) {
                b' ' => {
                    q = self.sp0(q);
                    col = ind;
                }
                b'\n' => {
                    let e = self.sp0(q + 1);
                    col = e - (q + 1);
                    q = e;
                    broke = true;
                }
                b'-' if self.at(q + 1) == b'-' => {
                    q = self.run(q, |c| c != b'\n');
                    col = 0;
                }
                _ => break,
            }
        }
        if q == p {
            return None;
        }
        let ok = match rel {
            Same => broke && col == ind,
            More => !broke || col > ind,
            NotLess => !broke || col >= ind,
        };
        if ok {
            Some((q, col))
        } else {
            None
        }
    }
    fn opt_gap(&self, p: usize, ind: usize, rel: Rel) -> usize {
        self.gap(p, ind, rel).map(|x| x.0).unwrap_or(p)
    }
    fn gap_to(&self, p: usize, ind: usize, rel: Rel) -> Option<usize> {
        self.gap(p, ind, rel).map(|x| x.0)
    }
    /// something, with an optional gap on both sides
    fn between(&self, p: usize, ind: usize, s: &str) -> Option<usize> {
        let p = self.opt_gap(p, ind, NotLess);
        let p = self.is(p, s)?;
        Some(self.opt_gap(p, ind, NotLess))
    }

    /// item (sep item)*
    fn list<T>(&self, p: usize, sep: impl Fn(usize) -> Option<usize>, item: impl Fn(usize) -> P<T>) -> P<Vec<T>> {
        let (mut p, first) = item(p)?;
        let mut v = vec![first];
        loop {
            let q = match sep(p) {
                Some(q) => q,
                None => return Some((p, v)),
            };
            match item(q) {
                Some((q, x)) => {
                    v.push(x);
                    p = q;
                }
                None => return Some((p, v)),
            }
        }
    }
    fn list0<T>(&self, p: usize, sep: impl Fn(usize) -> Option<usize>, item: impl Fn(usize) -> P<T>) -> (usize, Vec<T>) {
        self.list(p, sep, item).unwrap_or((p, vec![]))
    }
    fn many<T>(&self, p: usize, item: impl Fn(usize) -> P<T>) -> (usize, Vec<T>) {
        let mut p = p;
        let mut v = vec![];
        while let Some((q, x)) = item(p) {
            v.push(x);
            p = q;
        }
        (p, v)
    }

    // ------------------------------------------------------------------------------------ names

    fn word(&self, p: usize) -> usize {
        self.run(p, |c| c.is_ascii_alphanumeric() || c == b'_')
    }
    fn lo(&self, p: usize) -> P<String> {
        if self.at(p) == b'_' {
            return Some((p + 1, "_".to_string()));
        }
        if !self.at(p).is_ascii_lowercase() {
            return None;
        }
        let q = self.word(p);
        if RESERVED.contains(&&self.t[p..q]) {
            return None;
        }
        Some((q, self.cut(p, q)))
    }
    fn up(&self, p: usize) -> P<String> {
        if !self.at(p).is_ascii_uppercase() {
            return None;
        }
        let q = self.word(p);
        Some((q, self.cut(p, q)))
    }
    fn path(&self, p: usize) -> P<Vec<String>> {
        self.list(p, |p| self.is(p, "."), |p| self.up(p))
    }
    fn op(&self, p: usize) -> P<String> {
        let q = self.run1(p, |c| OPCHARS.as_bytes().contains(&c))?;
        if RESERVED_OPS.contains(&&self.t[p..q]) {
            return None;
        }
        Some((q, self.cut(p, q)))
    }
    fn op_in_brackets(&self, p: usize) -> P<String> {
        let p = self.is(p, "(")?;
        let (p, o) = self.op(p)?;
        Some((self.is(p, ")")?, o))
    }
    fn digits(&self, p: usize) -> Option<usize> {
        self.run1(p, |c| c.is_ascii_digit())
    }

    // ------------------------------------------------------------------------------------ terms

    fn variable(&self, p: usize) -> P<Expr> {
        if let Some((p, n)) = self.lo(p) {
            return Some((p, Expr::Variable(vec![n])));
        }
        if let Some((p, n)) = self.path(p) {
            return Some((p, Expr::Variable(n)));
        }
        if let Some((p, n)) = self.op_in_brackets(p) {
            return Some((p, Expr::Variable(vec![n])));
        }
        let a = self.is(p, "(")?;
        let q = self.run1(a, |c| c == b',')?;
        let e = self.is(q, ")")?;
        Some((e, Expr::Variable(vec![self.cut(a, q)])))
    }

    fn string(&self, p: usize) -> P<Expr> {
        if let Some(s) = self.is(p, "\"\"\"") {
            let mut q = s;
            loop {
                let quotes = self.run(q, |c| c == b'"') - q;
                if quotes > 2 {
                    break;
                }
                let n = q + quotes;
                if n >= self.b.len() {
                    break;
                }
                if self.at(n) == b'\\' {
                    match self.t[n + 1..].chars().next() {
                        Some(c) => q = n + 1 + c.len_utf8(),
                        None => break,
                    }
                } else {
                    q = n + self.t[n..].chars().next().unwrap().len_utf8();
                }
            }
            if let Some(e) = self.is(q, "\"\"\"") {
                return Some((e, Expr::String(self.cut(s, q))));
            }
        }
        let s = self.is(p, "\"")?;
        let mut q = s;
        while q < self.b.len() {
            match self.at(q) {
                b'\\' if b"\\\"".contains(&self.at(q + 1)) && q + 1 < self.b.len() => q += 2,
                b'"' | b'\n' => break,
                _ => q += 1,
            }
        }
        let e = self.is(q, "\"")?;
        Some((e, Expr::String(self.cut(s, q))))
    }

    fn number(&self, p: usize) -> P<Expr> {
        let s = if self.at(p) == b'+' || self.at(p) == b'-' { p + 1 } else { p };
        let q = self.digits(s)?;
        if self.at(q) == b'.' {
            if let Some(e) = self.digits(q + 1) {
                return Some((e, Expr::Float(self.cut(p, e))));
            }
        }
        Some((q, Expr::Integer(self.cut(p, q))))
    }

    fn character(&self, p: usize) -> P<Expr> {
        let p = self.is(p, "'")?;
        let c = self.t[p..].chars().next()?;
        let n = self.at(p + 1);
        let (q, c) = if c == '\\' && n == b'x' && self.at(p + 2).is_ascii_hexdigit() && self.at(p + 3).is_ascii_hexdigit() {
            (p + 4, u8::from_str_radix(&self.t[p + 2..p + 4], 16).ok()? as char)
        } else if c == '\\' && b"nrt\\'\"".contains(&n) {
            let v = match n {
                b'n' => '\n',
                b'r' => '\r',
                b't' => '\t',
                n => n as char,
            };
            (p + 2, v)
        } else {
            (p + c.len_utf8(), c)
        };
        Some((self.is(q, "'")?, Expr::Character(c)))
    }

    fn field(&self, p: usize) -> P<String> {
        let p = self.is(p, ".")?;
        self.lo(p)
    }

    fn brace(&self, p: usize) -> Option<usize> {
        let p = self.is(p, "{")?;
        if self.at(p) == b'-' {
            None
        } else {
            Some(p)
        }
    }

    fn listing(&self, p: usize, ind: usize) -> P<Expr> {
        let p = self.is(p, "[")?;
        let p = self.opt_gap(p, ind, NotLess);
        let (p, v) = self.list0(p, |p| self.between(p, ind, ","), |p| self.expression(p, ind));
        let p = self.opt_gap(p, ind, NotLess);
        Some((self.is(p, "]")?, Expr::List(v)))
    }

    fn tuple(&self, p: usize, ind: usize) -> P<Expr> {
        let p = self.is(p, "(")?;
        let (p, mut v) = self.list0(
            p,
            |p| self.is(p, ","),
            |p| {
                let p = self.any_ws0(p);
                let (p, e) = self.expression(p, ind)?;
                Some((self.any_ws0(p), e))
            },
        );
        let p = self.is(p, ")")?;
        Some((p, if v.len() == 1 { v.remove(0) } else { Expr::Tuple(v) }))
    }

    fn record_update(&self, p: usize, ind: usize) -> P<Expr> {
        let p = self.brace(p)?;
        let p = self.opt_gap(p, ind, NotLess);
        let (p, name) = self.lo(p)?;
        let p = self.opt_gap(p, ind, NotLess);
        let p = self.is(p, "|")?;
        let p = self.any_ws0(p);
        let (p, fields) = self.list(
            p,
            |p| self.between(p, ind, ","),
            |p| {
                let (p, n) = self.lo(p)?;
                let p = self.is(self.any_ws0(p), "=")?;
                let (p, e) = self.expression(self.any_ws0(p), ind)?;
                Some((p, (n, e)))
            },
        )?;
        let p = self.opt_gap(p, ind, NotLess);
        Some((self.is(p, "}")?, Expr::RecordUpdate(name, fields)))
    }

    fn record(&self, p: usize, ind: usize) -> P<Expr> {
        let p = self.brace(p)?;
        let p = self.opt_gap(p, ind, NotLess);
        let (p, fields) = self.list0(
            p,
            |p| self.between(p, ind, ","),
            |p| {
                let (p, n) = self.lo(p)?;
                let p = self.between(p, ind, "=")?;
                let (p, e) = self.expression(p, ind)?;
                Some((p, (n, e)))
            },
        );
        let p = self.opt_gap(p, ind, NotLess);
        Some((self.is(p, "}")?, Expr::Record(fields)))
    }

    fn names_record(&self, p: usize) -> P<Expr> {
        let p = self.brace(p)?;
        let (p, fields) = self.list0(
            p,
            |p| self.is(p, ","),
            |p| {
                let (p, n) = self.lo(self.any_ws0(p))?;
                Some((self.any_ws0(p), (n.clone(), Expr::Variable(vec![n]))))
            },
        );
        Some((self.is(p, "}")?, Expr::Record(fields)))
    }

    fn term(&self, p: usize, ind: usize) -> P<Expr> {
        if let Some((p, v)) = self.variable(p) {
            let (q, fields) = self.many(p, |p| self.field(p));
            return Some(if fields.is_empty() { (p, v) } else { (q, Expr::Access(Box::new(v), fields)) });
        }
        match self.at(p) {
            b'.' => self.field(p).map(|(p, n)| (p, Expr::AccessFunction(n))),
            b'"' => self.string(p),
            b'\'' => self.character(p),
            b'[' => self.listing(p, ind),
            b'(' => self.tuple(p, ind),
            b'{' => self.record_update(p, ind).or_else(|| self.record(p, ind)).or_else(|| self.names_record(p)),
            _ => self.number(p),
        }
    }

    // ------------------------------------------------------------------------------ expressions

    fn application(&self, p: usize, ind: usize) -> P<Expr> {
        let (p, v) = self.list(p, |p| self.gap_to(p, ind, More), |p| self.term(p, ind))?;
        let mut it = v.into_iter();
        let first = it.next()?;
        Some((p, it.fold(first, |f, a| Expr::Application(Box::new(f), Box::new(a)))))
    }

    fn operation(&self, p: usize, ind: usize) -> P<Expr> {
        let (p, left) = self.application(p, ind)?;
        let rest = || {
            let p = self.gap_to(p, ind, NotLess)?;
            let (p, o) = match self.is(p, "as") {
                Some(p) => (p, "as".to_string()),
                None => self.op(p)?,
            };
            let p = self.any_ws(p)?;
            let (p, right) = self.expression(p, ind)?;
            Some((p, o, right))
        };
        Some(match rest() {
            Some((p, o, right)) => (p, Expr::BinOp(Box::new(Expr::Variable(vec![o])), Box::new(left), Box::new(right))),
            None => (p, left),
        })
    }

    fn lambda(&self, p: usize, ind: usize) -> P<Expr> {
        let p = self.is(p, "\\")?;
        let (p, args) = self.list(p, |p| self.run1(p, |c| c == b' ' || c == b'\t'), |p| self.term(p, ind))?;
        let p = self.gap_to(p, ind, NotLess)?;
        let p = self.is(p, "->")?;
        let (p, col) = self.gap(p, ind, NotLess)?;
        let (p, body) = self.expression(p, col)?;
        Some((p, Expr::Lambda(args, Box::new(body))))
    }

    fn if_(&self, p: usize, ind: usize) -> P<Expr> {
        let p = self.is(p, "if")?;
        let p = self.gap_to(p, ind, NotLess)?;
        let (p, test) = self.expression(p, ind)?;
        let mut parts = vec![];
        let mut p = p;
        for word in &["then", "else"] {
            p = self.gap_to(p, ind, NotLess)?;
            p = self.is(p, word)?;
            let (q, col) = self.gap(p, ind, NotLess)?;
            let (q, e) = self.expression(q, col)?;
            parts.push(Box::new(e));
            p = q;
        }
        let no = parts.pop()?;
        let yes = parts.pop()?;
        Some((p, Expr::If(Box::new(test), yes, no)))
    }

    fn target(&self, p: usize, ind: usize) -> P<Expr> {
        self.variable(p).or_else(|| match self.at(p) {
            b'[' => self.listing(p, ind),
            b'(' => self.tuple(p, ind),
            _ => self.names_record(p),
        })
    }

    fn let_entry(&self, p: usize, ind: usize) -> P<LetEntry> {
        let start = || {
            let (p, t) = self.target(p, ind)?;
            let p = self.gap_to(p, ind, NotLess)?;
            Some((self.is(p, "=")?, t))
        };
        match start() {
            Some((p, t)) => {
                let (p, col) = self.gap(p, ind, NotLess)?;
                let (p, e) = self.expression(p, col)?;
                Some((p, LetEntry::LetBinding(t, e)))
            }
            None => {
                let (p, f) = self.function(p, ind)?;
                Some((p, LetEntry::LetFunction(f)))
            }
        }
    }

    fn let_(&self, p: usize, ind: usize) -> P<Expr> {
        let p = self.is(p, "let")?;
        let (p, col) = self.gap(p, ind, NotLess)?;
        let (p, entries) = self.list(p, |p| self.gap_to(p, col, Same), |p| self.let_entry(p, col))?;
        let p = self.gap_to(p, ind, NotLess)?;
        let p = self.is(p, "in")?;
        let p = self.gap_to(p, ind, NotLess)?;
        let (p, body) = self.expression(p, ind)?;
        Some((p, Expr::Let(entries, Box::new(body))))
    }

    fn branch(&self, p: usize, ind: usize) -> P<(Expr, Expr)> {
        let (p, pattern) = self.expression(p, ind)?;
        let p = self.gap_to(p, ind, NotLess)?;
        let p = self.is(p, "->")?;
        let (p, col) = self.gap(p, ind, NotLess)?;
        let (p, e) = self.expression(p, col)?;
        Some((p, (pattern, e)))
    }

    fn case(&self, p: usize, ind: usize) -> P<Expr> {
        let p = self.is(p, "case")?;
        let p = self.gap_to(p, ind, NotLess)?;
        let (p, subject) = self.expression(p, ind)?;
        let p = self.gap_to(p, ind, NotLess)?;
        let p = self.is(p, "of")?;
        let s = self.sp0(p);
        let breaks = self.at(s) == b'\n' || (self.at(s) == b'-' && self.at(s + 1) == b'-');
        let (p, col) = self.gap(p, ind, NotLess)?;
        let (p, branches) = if breaks {
            self.list(p, |p| self.gap_to(p, col, Same), |p| self.branch(p, col))?
        } else {
            let (p, b) = self.branch(p, col)?;
            (p, vec![b])
        };
        Some((p, Expr::Case(Box::new(subject), branches)))
    }

    fn expression(&self, p: usize, ind: usize) -> P<Expr> {
        self.operation(p, ind)
            .or_else(|| self.let_(p, ind))
            .or_else(|| self.case(p, ind))
            .or_else(|| self.if_(p, ind))
            .or_else(|| self.lambda(p, ind))
    }

    // ------------------------------------------------------------------------------------ types

    fn type_field(&self, p: usize, ind: usize) -> P<(String, Type)> {
        let (p, n) = self.lo(p)?;
        let p = self.between(p, ind, ":")?;
        let (p, t) = self.annotation(p, ind)?;
        Some((p, (n, t)))
    }

    fn extended(&self, p: usize, ind: usize) -> P<Type> {
        let p = self.brace(p)?;
        let p = self.gap_to(p, ind, NotLess)?;
        let (p, v) = self.type_variable(p)?;
        let p = self.gap_to(p, ind, NotLess)?;
        let p = self.is(p, "|")?;
        let p = self.gap_to(p, ind, NotLess)?;
        self.lo(p)?;
        let (p, fields) = self.list0(p, |p| self.between(p, ind, ","), |p| self.type_field(p, ind));
        let p = self.gap_to(p, ind, NotLess)?;
        Some((self.is(p, "}")?, Type::TypeRecordConstructor(Box::new(v), fields)))
    }

    fn type_record(&self, p: usize, ind: usize) -> P<Type> {
        let p = self.brace(p)?;
        let p = self.opt_gap(p, ind, NotLess);
        let (p, fields) = self.list0(p, |p| self.between(p, ind, ","), |p| self.type_field(p, ind));
        let p = self.opt_gap(p, ind, NotLess);
        Some((self.is(p, "}")?, Type::TypeRecord(fields)))
    }

    fn type_tuple(&self, p: usize, ind: usize) -> P<Type> {
        let p = self.is(p, "(")?;
        let p = self.opt_gap(p, ind, NotLess);
        let (p, mut v) = self.list0(p, |p| self.between(p, ind, ","), |p| self.annotation(p, ind));
        let p = self.opt_gap(p, ind, NotLess);
        let p = self.is(p, ")")?;
        Some((p, if v.len() == 1 { v.remove(0) } else { Type::TypeTuple(v) }))
    }

    fn type_variable(&self, p: usize) -> P<Type> {
        let (p, n) = self.lo(p)?;
        if n == "_" {
            return None;
        }
        Some((p, Type::TypeVariable(n)))
    }

    fn type_atom(&self, p: usize, ind: usize) -> P<Type> {
        match self.at(p) {
            b'{' => self.extended(p, ind).or_else(|| self.type_record(p, ind)),
            b'(' => self.type_tuple(p, ind),
            _ => self.type_variable(p),
        }
    }

    fn constructor(&self, p: usize, ind: usize) -> P<Type> {
        let (p, name) = self.path(p)?;
        let (p, args) = self.many(p, |p| {
            let (p, col) = self.gap(p, ind, More)?;
            match self.path(p) {
                Some((p, n)) => Some((p, Type::TypeConstructor(n, vec![]))),
                None => self.type_atom(p, col),
            }
        });
        Some((p, Type::TypeConstructor(name, args)))
    }

    fn type_(&self, p: usize, ind: usize) -> P<Type> {
        self.constructor(p, ind).or_else(|| self.type_atom(p, ind))
    }

    fn annotation(&self, p: usize, ind: usize) -> P<Type> {
        let arrow = |p| self.sn(self.is(self.sn(p)?, "->")?);
        let (p, mut v) = self.list(p, arrow, |p| self.type_(p, ind))?;
        let last = v.pop()?;
        Some((p, v.into_iter().rev().fold(last, |to, from| Type::TypeApplication(Box::new(from), Box::new(to)))))
    }

    // ----------------------------------------------------------------------------- declarations

    fn function_name(&self, p: usize) -> P<String> {
        self.lo(p).or_else(|| self.op_in_brackets(p))
    }

    fn function(&self, p: usize, ind: usize) -> P<Function> {
        let sig = || {
            let (p, name) = self.function_name(p)?;
            let p = self.is(self.sp(p)?, ":")?;
            let (p, col) = self.gap(p, ind, More)?;
            let (p, type_) = self.annotation(p, col)?;
            let s = self.is(p, "\n")?;
            let q = self.sp0(s);
            if q - s != ind {
                return None;
            }
            Some((q, FunctionSignature { name, type_ }))
        };
        let (p, signature) = match sig() {
            Some((p, s)) => (p, Some(s)),
            None => (p, None),
        };
        let (p, name) = self.function_name(p)?;
        let (p, args) = self.many(p, |p| self.term(self.sp(p)?, ind));
        let p = self.is(self.sp(p)?, "=")?;
        let (p, col) = self.gap(p, ind, More)?;
        let (p, body) = self.expression(p, col)?;
        Some((p, Function { signature, definition: FunctionDefinition { name, args, body } }))
    }

    fn exports(&self, p: usize) -> P<ExportSet> {
        let p = self.is(p, "(")?;
        let p = self.opt_gap(p, 0, NotLess);
        let (p, set) = match self.is(p, "..") {
            Some(p) => (p, ExportSet::AllExport),
            None => {
                let (p, v) = self.list(p, |p| Some(self.sn0(self.is(self.sn0(p), ",")?)), |p| self.exposed(p))?;
                (p, ExportSet::SubsetExport(v))
            }
        };
        let p = self.opt_gap(p, 0, NotLess);
        Some((self.is(p, ")")?, set))
    }

    fn exposed(&self, p: usize) -> P<ExportSet> {
        if let Some((p, n)) = self.function_name(p) {
            return Some((p, ExportSet::FunctionExport(n)));
        }
        let (p, name) = self.up(p)?;
        let constructors = || {
            let p = self.is(p, "(")?;
            let (p, set) = match self.is(p, "..") {
                Some(p) => (p, ExportSet::AllExport),
                None => {
                    let (p, v) = self.list(p, |p| self.is(p, ", "), |p| self.up(p).map(|(p, n)| (p, ExportSet::FunctionExport(n))))?;
                    (p, ExportSet::SubsetExport(v))
                }
            };
            Some((self.is(p, ")")?, Box::new(set)))
        };
        Some(match constructors() {
            Some((p, set)) => (p, ExportSet::TypeExport(name, Some(set))),
            None => (p, ExportSet::TypeExport(name, None)),
        })
    }

    /// a word and the gap behind it
    fn word_gap(&self, p: usize, w: &str) -> Option<usize> {
        let p = self.is(p, w)?;
        self.gap_to(p, 0, More)
    }
    /// a word with a gap on both sides
    fn gap_word_gap(&self, p: usize, w: &str) -> Option<usize> {
        let p = self.gap_to(p, 0, More)?;
        self.word_gap(p, w)
    }

    fn header(&self, p: usize) -> P<Statement> {
        let port = self.word_gap(p, "port").and_then(|p| self.word_gap(p, "module"));
        let effect = self.word_gap(p, "effect").and_then(|p| self.word_gap(p, "module"));
        if let Some(p) = effect {
            let (p, name) = self.path(p)?;
            let p = self.gap_word_gap(p, "where")?;
            let p = self.is(p, "{")?;
            let (p, fields) = self.list0(
                p,
                |p| self.is(p, ", "),
                |p| {
                    let (p, n) = self.lo(p)?;
                    let p = self.is(self.sp0(p), "=")?;
                    let (p, u) = self.up(self.sp0(p))?;
                    Some((p, (n, u)))
                },
            );
            let p = self.is(p, "}")?;
            let p = self.gap_word_gap(p, "exposing")?;
            let (p, e) = self.exports(p)?;
            return Some((p, Statement::EffectModuleDeclaration(name, fields, e)));
        }
        let start = match port {
            Some(p) => p,
            None => self.word_gap(p, "module")?,
        };
        let (p, name) = self.path(start)?;
        let p = self.gap_word_gap(p, "exposing")?;
        let (p, e) = self.exports(p)?;
        Some((p, if port.is_some() { Statement::PortModuleDeclaration(name, e) } else { Statement::ModuleDeclaration(name, e) }))
    }

    fn import(&self, p: usize) -> P<Statement> {
        let p = self.sp(self.is(p, "import")?)?;
        let (p, name) = self.path(p)?;
        let (p, alias) = match self.gap_word_gap(p, "as").and_then(|p| self.up(p)) {
            Some((p, a)) => (p, Some(a)),
            None => (p, None),
        };
        let (p, exposing) = match self.gap_word_gap(p, "exposing").and_then(|p| self.exports(p)) {
            Some((p, e)) => (p, Some(e)),
            None => (p, None),
        };
        Some((p, Statement::ImportStatement(name, alias, exposing)))
    }

    /// What a declaration defines: a name without a path, and type variables
    fn type_head(&self, p: usize) -> P<Type> {
        let (p, head) = self.constructor(p, 0)?;
        match &head {
            Type::TypeConstructor(n, args) if n.len() == 1 && args.iter().all(|a| matches!(a, Type::TypeVariable(_))) => Some((p, head)),
            _ => None,
        }
    }

    fn type_alias(&self, p: usize) -> P<Statement> {
        let p = self.sp(self.is(p, "type")?)?;
        let p = self.sp(self.is(p, "alias")?)?;
        let (p, head) = self.type_head(p)?;
        let p = self.is(self.sp(p)?, "=")?;
        let p = self.gap_to(p, 1, NotLess)?;
        let (p, t) = self.annotation(p, 1)?;
        Some((p, Statement::TypeAliasDeclaration(head, t)))
    }

    fn type_declaration(&self, p: usize) -> P<Statement> {
        let p = self.sp(self.is(p, "type")?)?;
        let (p, head) = self.type_head(p)?;
        let (p, col) = self.gap(p, 0, More)?;
        let p = self.is(p, "=")?;
        let p = self.gap_to(p, col, NotLess)?;
        let bar = |p| {
            let p = self.gap_to(p, col, NotLess)?;
            self.sp(self.is(p, "|")?)
        };
        let (p, v) = self.list(p, bar, |p| self.constructor(p, col))?;
        Some((p, Statement::TypeDeclaration(head, v)))
    }

    fn port(&self, p: usize) -> P<Statement> {
        let p = self.sp(self.is(p, "port")?)?;
        let (p, name) = self.lo(p)?;
        let (q, args) = self.many(p, |p| self.lo(self.sp(p)?));
        let q = self.sp(q)?;
        if args.is_empty() && self.at(q) == b':' {
            let (p, col) = self.gap(q + 1, 0, More)?;
            let (p, t) = self.annotation(p, col)?;
            return Some((p, Statement::PortTypeDeclaration(name, t)));
        }
        let p = self.is(q, "=")?;
        let (p, col) = self.gap(p, 0, More)?;
        let (p, e) = self.expression(p, col)?;
        Some((p, Statement::PortDeclaration(name, args, e)))
    }

    fn infix(&self, p: usize) -> P<Statement> {
        let p = self.is(p, "infix")?;
        let (p, assoc) = match self.at(p) {
            b'l' => (p + 1, Assoc::L),
            b'r' => (p + 1, Assoc::R),
            _ => (p, Assoc::N),
        };
        let p = self.sp(p)?;
        let q = self.digits(p)?;
        let value = self.t[p..q].parse::<i64>().ok()?;
        let p = self.sp(q)?;
        let (p, name) = self.lo(p).or_else(|| self.op(p))?;
        Some((p, Statement::InfixDeclaration(assoc, value, name)))
    }

    fn comment(&self, p: usize) -> P<Statement> {
        if let Some(s) = self.is(p, "--") {
            let e = self.run(s, |c| c != b'\n');
            return Some((e, Statement::Comment(self.cut(s, e))));
        }
        let s = self.is(p, "{-")?;
        let e = s + self.t[s..].find("-}")?;
        Some((e + 2, Statement::Comment(self.cut(s, e))))
    }

    fn statement(&self, p: usize) -> P<Statement> {
        self.header(p)
            .or_else(|| self.import(p))
            .or_else(|| self.type_alias(p))
            .or_else(|| self.type_declaration(p))
            .or_else(|| self.port(p))
            .or_else(|| self.function(p, 0).map(|(p, f)| (p, Statement::Function(f))))
            .or_else(|| self.infix(p))
            .or_else(|| self.comment(p))
    }

    fn statements(&self, p: usize) -> P<Vec<Statement>> {
        let (p, v) = self.list(self.any_ws0(p), |p| self.any_ws(p), |p| self.statement(p))?;
        Some((self.any_ws0(p), v))
    }
}
