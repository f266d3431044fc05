//! Relations between the readings of two texts: names and literals exchanged (C26), an expression or type
//! put in the place of another (C27).

use crate::ast::*;
use crate::choice::Src;
use crate::dict::*;
use crate::engine::*;
use crate::gen::*;
use crate::lex::{self, Tok};
use crate::mutate;
use crate::print::*;
use crate::props::{dump_of, show_expr, show_type};
use std::collections::BTreeMap;

// ------------------------------------------------------------------------- changing every leaf

#[derive(Default)]
struct Sub {
    names: BTreeMap<String, String>,
    digits: BTreeMap<String, String>,
    strings: BTreeMap<String, String>,
    comments: BTreeMap<String, String>,
    chars: BTreeMap<char, char>,
    /// what every operator becomes
    op: Option<String>,
}

impl Sub {
    fn n(&self, s: &str) -> String {
        self.names.get(s).cloned().unwrap_or_else(|| s.to_string())
    }
    fn ns(&self, v: &[String]) -> Vec<String> {
        v.iter().map(|s| self.n(s)).collect()
    }
    fn num(&self, s: &str) -> String {
        let mut out = String::new();
        let mut run = String::new();
        for c in s.chars().chain(std::iter::once(' ')) {
            if c.is_ascii_digit() {
                run.push(c);
            } else {
                if !run.is_empty() {
                    out.push_str(self.digits.get(&run).map(|s| s.as_str()).unwrap_or(&run));
                    run.clear();
                }
                out.push(c);
            }
        }
        out.pop();
        out
    }
    fn es(&self, v: &[Expr]) -> Vec<Expr> {
        v.iter().map(|e| self.e(e)).collect()
    }
    fn b(&self, e: &Expr) -> Box<Expr> {
        Box::new(self.e(e))
    }
    fn fs(&self, v: &[(String, Expr)]) -> Vec<(String, Expr)> {
        v.iter().map(|(k, e)| (self.n(k), self.e(e))).collect()
    }
    fn e(&self, e: &Expr) -> Expr {
        use Expr::*;
        match e {
            Character(c) => Character(*self.chars.get(c).unwrap_or(c)),
            String(s) => String(self.strings.get(s).cloned().unwrap_or_else(|| s.clone())),
            Integer(s) => Integer(self.num(s)),
            Float(s) => Float(self.num(s)),
            Variable(v) => Variable(self.ns(v)),
            List(v) => List(self.es(v)),
            Tuple(v) => Tuple(self.es(v)),
            Access(a, v) => Access(self.b(a), self.ns(v)),
            AccessFunction(s) => AccessFunction(self.n(s)),
            Record(v) => Record(self.fs(v)),
            RecordUpdate(s, v) => RecordUpdate(self.n(s), self.fs(v)),
            If(a, b, c) => If(self.b(a), self.b(b), self.b(c)),
            Let(v, b) => Let(
                v.iter()
                    .map(|x| match x {
                        LetEntry::LetFunction(f) => LetEntry::LetFunction(self.f(f)),
                        LetEntry::LetBinding(a, b) => LetEntry::LetBinding(self.e(a), self.e(b)),
                    })
                    .collect(),
                self.b(b),
            ),
            Case(a, v) => Case(self.b(a), v.iter().map(|(p, q)| (self.e(p), self.e(q))).collect()),
            Lambda(v, b) => Lambda(self.es(v), self.b(b)),
            Application(a, b) => Application(self.b(a), self.b(b)),
            BinOp(a, b, c) => match &self.op {
                Some(op) if **a != var("as") => BinOp(Box::new(var(op)), self.b(b), self.b(c)),
                _ => BinOp(self.b(a), self.b(b), self.b(c)),
            },
        }
    }
    fn f(&self, f: &Function) -> Function {
        Function {
            signature: f.signature.as_ref().map(|s| FunctionSignature { name: self.n(&s.name), type_: self.t(&s.type_) }),
            definition: FunctionDefinition { name: self.n(&f.definition.name), args: self.es(&f.definition.args), body: self.e(&f.definition.body) },
        }
    }
    fn ts(&self, v: &[Type]) -> Vec<Type> {
        v.iter().map(|t| self.t(t)).collect()
    }
    fn tf(&self, v: &[(String, Type)]) -> Vec<(String, Type)> {
        v.iter().map(|(k, t)| (self.n(k), self.t(t))).collect()
    }
    fn t(&self, t: &Type) -> Type {
        use Type::*;
        match t {
            TypeConstructor(n, a) => TypeConstructor(self.ns(n), self.ts(a)),
            TypeVariable(s) => TypeVariable(self.n(s)),
            TypeRecordConstructor(a, v) => TypeRecordConstructor(Box::new(self.t(a)), self.tf(v)),
            TypeRecord(v) => TypeRecord(self.tf(v)),
            TypeTuple(v) => TypeTuple(self.ts(v)),
            TypeApplication(a, b) => TypeApplication(Box::new(self.t(a)), Box::new(self.t(b))),
        }
    }
    fn x(&self, x: &ExportSet) -> ExportSet {
        match x {
            ExportSet::AllExport => ExportSet::AllExport,
            ExportSet::SubsetExport(v) => ExportSet::SubsetExport(v.iter().map(|x| self.x(x)).collect()),
            ExportSet::FunctionExport(s) => ExportSet::FunctionExport(self.n(s)),
            ExportSet::TypeExport(s, o) => ExportSet::TypeExport(self.n(s), o.as_ref().map(|x| Box::new(self.x(x)))),
        }
    }
    fn s(&self, s: &Statement) -> Statement {
        use Statement::*;
        match s {
            ModuleDeclaration(n, x) => ModuleDeclaration(self.ns(n), self.x(x)),
            PortModuleDeclaration(n, x) => PortModuleDeclaration(self.ns(n), self.x(x)),
            EffectModuleDeclaration(n, w, x) => EffectModuleDeclaration(self.ns(n), w.iter().map(|(a, b)| (self.n(a), self.n(b))).collect(), self.x(x)),
            ImportStatement(n, a, x) => ImportStatement(self.ns(n), a.as_ref().map(|s| self.n(s)), x.as_ref().map(|x| self.x(x))),
            TypeAliasDeclaration(a, b) => TypeAliasDeclaration(self.t(a), self.t(b)),
            TypeDeclaration(a, v) => TypeDeclaration(self.t(a), self.ts(v)),
            PortTypeDeclaration(s, t) => PortTypeDeclaration(self.n(s), self.t(t)),
            PortDeclaration(s, v, e) => PortDeclaration(self.n(s), self.ns(v), self.e(e)),
            Function(f) => Function(self.f(f)),
            InfixDeclaration(a, p, s) => InfixDeclaration(a.clone(), *p, self.n(s)),
            Comment(s) => Comment(self.comments.get(s).cloned().unwrap_or_else(|| s.clone())),
        }
    }
}

// --------------------------------------------------------------------------------------- C26

/// Words with a meaning in some places only.
const SOFT: &[&str] = &["effect", "infix", "infixl", "infixr", "_"];

fn free_lo(g: &mut Gen) -> String {
    for _ in 0..8 {
        let s = g.lo();
        if is_lo(&s) && !SOFT.contains(&s.as_str()) {
            return s;
        }
    }
    "q".to_string()
}

/// The parts of a run of letters, digits and underscores as the language divides it.
fn split_word(w: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut r = w;
    while !r.is_empty() {
        let c = r.as_bytes()[0];
        let n = if c.is_ascii_digit() {
            r.bytes().take_while(|b| b.is_ascii_digit()).count()
        } else if c == b'_' {
            1
        } else {
            r.len()
        };
        v.push(&r[..n]);
        r = &r[n..];
    }
    v
}

/// A text with every name, number, string, character and comment exchanged, each consistently.
fn exchange(text: &str, src: &mut Src, d: &Dict) -> Option<(String, Sub)> {
    let l = lex::lex(text);
    if l.unterminated.is_some() || l.ambiguous || l.junk.is_some() {
        return None;
    }
    let no_numbers = text.contains("infix");
    let mut g = Gen::new(src, d);
    g.fuel = 0;
    let mut m = Sub::default();
    let mut out = String::new();
    let mut at = 0;
    let part = |g: &mut Gen| g.src.chance(700);
    for (t, a, b) in &l.toks {
        out.push_str(&text[at..*a]);
        at = *b;
        let old = &text[*a..*b];
        match t {
            Tok::Word(w) => {
                for p in split_word(w) {
                    let c = p.as_bytes()[0];
                    if c.is_ascii_digit() {
                        if !no_numbers && !m.digits.contains_key(p) {
                            let s = if part(&mut g) { g.digits() } else { p.to_string() };
                            m.digits.insert(p.to_string(), s);
                        }
                        out.push_str(m.digits.get(p).map(|s| s.as_str()).unwrap_or(p));
                    } else {
                        let fixed = SOFT.contains(&p) || RESERVED.contains(&p);
                        if !fixed && !m.names.contains_key(p) {
                            let s = if !part(&mut g) {
                                p.to_string()
                            } else if c.is_ascii_uppercase() {
                                g.up()
                            } else {
                                free_lo(&mut g)
                            };
                            m.names.insert(p.to_string(), s);
                        }
                        out.push_str(m.names.get(p).map(|s| s.as_str()).unwrap_or(p));
                    }
                }
            }
            Tok::Str(s) => {
                if !m.strings.contains_key(s) {
                    let mut n = s.clone();
                    if part(&mut g) {
                        for _ in 0..4 {
                            let c = g.string();
                            if single_ok(&c) && triple_ok(&c) {
                                n = c;
                                break;
                            }
                        }
                    }
                    m.strings.insert(s.clone(), n);
                }
                let q = if old.starts_with("\"\"\"") { "\"\"\"" } else { "\"" };
                out.push_str(q);
                out.push_str(&m.strings[s]);
                out.push_str(q);
            }
            Tok::Chr(c) => {
                let n = *m.chars.entry(*c).or_insert((b'a' + g.src.below(26) as u8) as char);
                out.push_str(&format!("'{}'", n));
            }
            Tok::LineComment(s) | Tok::BlockComment(s) => {
                if !m.comments.contains_key(s) {
                    let mut n = s.clone();
                    if part(&mut g) {
                        let c = g.comment();
                        if !c.contains('\n') && block_comment_ok(&c) && c.starts_with(|c: char| c == ' ' || c.is_alphanumeric()) {
                            n = c;
                        }
                    }
                    m.comments.insert(s.clone(), n);
                }
                let block = old.starts_with("{-");
                out.push_str(if block { "{-" } else { "--" });
                out.push_str(&m.comments[s]);
                if block {
                    out.push_str("-}");
                }
            }
            Tok::Sym(_) => out.push_str(old),
        }
    }
    out.push_str(&text[at..]);
    // strings that touch (`"a""b"`) may have become other tokens
    let n = lex::lex(&out);
    let same = n.toks.len() == l.toks.len()
        && n.toks.iter().zip(&l.toks).all(|((a, _, _), (b, _, _))| match (a, b) {
            (Tok::Sym(x), Tok::Sym(y)) => x == y,
            _ => std::mem::discriminant(a) == std::mem::discriminant(b),
        });
    if same && n.unterminated.is_none() && !n.ambiguous && n.junk.is_none() {
        Some((out, m))
    } else {
        None
    }
}

pub fn c26(cx: &mut Ctx) -> Result<(), Fail> {
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.fuel = g.fuel.min(120);
        if g.src.chance(400) {
            vec![g.statement()]
        } else {
            g.module()
        }
    };
    let st = Style::draw(cx.src);
    let mut text = print_module(&stmts, cx.src, st, &[]).text;
    let edits = cx.src.weighted(&[50, 30, 15, 5]);
    for _ in 0..edits {
        text = mutate::mutate(&text, cx.src, cx.d);
    }
    let (other, m) = match exchange(&text, cx.src, cx.d) {
        Some(x) => x,
        None => return Ok(()),
    };
    cx.text.push_str(&text);
    cx.text.push_str("\n=====\n");
    cx.text.push_str(&other);
    cx.nontrivial = other != text && m.names.len() > 1;
    if !m.digits.is_empty() {
        cx.labels.push("numbers exchanged");
    }
    if !m.strings.is_empty() {
        cx.labels.push("strings exchanged");
    }
    if !m.comments.is_empty() {
        cx.labels.push("comments exchanged");
    }
    match parse(&text) {
        Out::Ast { ref rest, ref dump } if rest.is_empty() => {
            cx.labels.push("accepted");
            if edits > 0 {
                cx.labels.push("accepted after an edit");
            }
            let ast = match from_debug(dump) {
                Ok(a) => a,
                Err(e) => return fail(&format!("the AST cannot be read: {}", e), &text, "an AST", dump),
            };
            let want: Vec<Statement> = ast.iter().map(|s| m.s(s)).collect();
            let want = dump_of(&want);
            match parse(&other) {
                Out::Ast { ref rest, ref dump } if rest.is_empty() && *dump == want => Ok(()),
                o => fail(&format!("with other names and literals the text is read differently; before:\n{}", text), &other, &want, &o.show()),
            }
        }
        _ => {
            cx.labels.push("rejected");
            match parse(&other) {
                Out::Rejected(_) => Ok(()),
                o => fail(&format!("with other names and literals the text is accepted; before:\n{}", text), &other, "rejected", &o.show()),
            }
        }
    }
}

// --------------------------------------------------------------------------------------- C27

pub const HOLE: &str = "holeQ";
pub const TYPE_HOLE: &str = "tholeQ";
pub const NOWHERE: usize = usize::max_value() - 1;

/// Replaces a variable by an expression, and a type variable by a type.
pub fn fill_e(e: &Expr, by: &Expr, ty: &Type) -> Expr {
    let b = |x: &Expr| Box::new(fill_e(x, by, ty));
    let es = |v: &[Expr]| -> Vec<Expr> { v.iter().map(|x| fill_e(x, by, ty)).collect() };
    let fs = |v: &[(std::string::String, Expr)]| -> Vec<(std::string::String, Expr)> { v.iter().map(|(k, x)| (k.clone(), fill_e(x, by, ty))).collect() };
    use Expr::*;
    match e {
        Variable(v) if v.len() == 1 && v[0] == HOLE => by.clone(),
        List(v) => List(es(v)),
        Tuple(v) => Tuple(es(v)),
        Record(v) => Record(fs(v)),
        RecordUpdate(s, v) => RecordUpdate(s.clone(), fs(v)),
        If(x, y, z) => If(b(x), b(y), b(z)),
        Let(v, x) => Let(
            v.iter()
                .map(|l| match l {
                    LetEntry::LetFunction(f) => LetEntry::LetFunction(fill_f(f, by, ty)),
                    LetEntry::LetBinding(p, q) => LetEntry::LetBinding(fill_e(p, by, ty), fill_e(q, by, ty)),
                })
                .collect(),
            b(x),
        ),
        Case(x, v) => Case(b(x), v.iter().map(|(p, q)| (fill_e(p, by, ty), fill_e(q, by, ty))).collect()),
        Lambda(v, x) => Lambda(es(v), b(x)),
        Application(x, y) => Application(b(x), b(y)),
        BinOp(o, x, y) => BinOp(o.clone(), b(x), b(y)),
        _ => e.clone(),
    }
}
fn fill_f(f: &Function, by: &Expr, ty: &Type) -> Function {
    Function {
        signature: f.signature.as_ref().map(|s| FunctionSignature { name: s.name.clone(), type_: fill_t(&s.type_, ty) }),
        definition: FunctionDefinition {
            name: f.definition.name.clone(),
            args: f.definition.args.iter().map(|x| fill_e(x, by, ty)).collect(),
            body: fill_e(&f.definition.body, by, ty),
        },
    }
}
pub fn fill_t(t: &Type, by: &Type) -> Type {
    use Type::*;
    let ts = |v: &[Type]| -> Vec<Type> { v.iter().map(|x| fill_t(x, by)).collect() };
    let tf = |v: &[(String, Type)]| -> Vec<(String, Type)> { v.iter().map(|(k, x)| (k.clone(), fill_t(x, by))).collect() };
    match t {
        TypeVariable(s) if s == TYPE_HOLE => by.clone(),
        TypeConstructor(n, a) => TypeConstructor(n.clone(), ts(a)),
        TypeRecordConstructor(v, f) => TypeRecordConstructor(v.clone(), tf(f)),
        TypeRecord(f) => TypeRecord(tf(f)),
        TypeTuple(v) => TypeTuple(ts(v)),
        TypeApplication(a, b) => TypeApplication(Box::new(fill_t(a, by)), Box::new(fill_t(b, by))),
        _ => t.clone(),
    }
}
fn fill(s: &Statement, by: &Expr, ty: &Type) -> Statement {
    use Statement::*;
    match s {
        TypeAliasDeclaration(a, b) => TypeAliasDeclaration(a.clone(), fill_t(b, ty)),
        TypeDeclaration(a, v) => TypeDeclaration(a.clone(), v.iter().map(|t| fill_t(t, ty)).collect()),
        PortTypeDeclaration(n, t) => PortTypeDeclaration(n.clone(), fill_t(t, ty)),
        PortDeclaration(n, a, e) => PortDeclaration(n.clone(), a.clone(), fill_e(e, by, ty)),
        Function(f) => Function(fill_f(f, by, ty)),
        _ => s.clone(),
    }
}

/// Puts a hole in the place of some leaf; counts the leaves down.
pub struct Dig {
    at: usize,
    pub seen: usize,
    types: bool,
    /// the hole was there already
    found: bool,
    /// patterns have places, too
    pub patterns: bool,
}
impl Dig {
    pub fn new(at: usize, types: bool) -> Dig {
        Dig { at, seen: 0, types, found: false, patterns: true }
    }
    fn hit(&mut self) -> bool {
        self.seen += 1;
        self.seen == self.at + 1
    }
    pub fn e(&mut self, e: &mut Expr) {
        use Expr::*;
        match e {
            List(v) | Tuple(v) if !v.is_empty() => v.iter_mut().for_each(|x| self.e(x)),
            Record(v) => {
                // the short form { a, b } has no places for expressions
                if !simple_record(v) {
                    v.iter_mut().for_each(|x| self.e(&mut x.1))
                }
            }
            RecordUpdate(_, v) => v.iter_mut().for_each(|x| self.e(&mut x.1)),
            If(x, y, z) => {
                self.e(x);
                self.e(y);
                self.e(z);
            }
            Let(v, b) => {
                for l in v {
                    match l {
                        LetEntry::LetFunction(f) => self.f(f),
                        LetEntry::LetBinding(_, q) => self.e(q),
                    }
                }
                self.e(b);
            }
            Case(x, v) => {
                self.e(x);
                for (p, q) in v {
                    self.p(p);
                    self.e(q);
                }
            }
            Lambda(v, b) => {
                v.iter_mut().for_each(|x| self.p(x));
                self.e(b);
            }
            Application(a, b) => {
                self.e(a);
                self.e(b);
            }
            BinOp(o, a, b) => {
                self.e(a);
                // a name has to follow `as`
                if **o != var("as") {
                    self.e(b);
                }
            }
            _ => {
                self.found |= *e == var(HOLE);
                if !self.types && self.hit() {
                    *e = var(HOLE);
                }
            }
        }
    }
    fn p(&mut self, e: &mut Expr) {
        if self.patterns {
            self.e(e)
        }
    }
    fn f(&mut self, f: &mut Function) {
        if let Some(s) = f.signature.as_mut() {
            self.t(&mut s.type_);
        }
        f.definition.args.iter_mut().for_each(|x| self.p(x));
        self.e(&mut f.definition.body);
    }
    pub fn t(&mut self, t: &mut Type) {
        use Type::*;
        match t {
            TypeConstructor(_, v) | TypeTuple(v) if !v.is_empty() => v.iter_mut().for_each(|x| self.t(x)),
            TypeRecord(v) | TypeRecordConstructor(_, v) if !v.is_empty() => v.iter_mut().for_each(|x| self.t(&mut x.1)),
            TypeApplication(a, b) => {
                self.t(a);
                self.t(b);
            }
            _ => {
                self.found |= *t == TypeVariable(TYPE_HOLE.to_string());
                if self.types && self.hit() {
                    *t = TypeVariable(TYPE_HOLE.to_string());
                }
            }
        }
    }
    fn s(&mut self, s: &mut Statement) {
        use Statement::*;
        match s {
            TypeAliasDeclaration(_, b) => self.t(b),
            TypeDeclaration(_, v) => {
                for c in v {
                    if let Type::TypeConstructor(_, a) = c {
                        a.iter_mut().for_each(|x| self.t(x));
                    }
                }
            }
            PortTypeDeclaration(_, t) => self.t(t),
            PortDeclaration(_, _, e) => self.e(e),
            Function(f) => self.f(f),
            _ => {}
        }
    }
}

/// One line that stays within its brackets whatever stands around it.
fn closed(t: &str) -> bool {
    if t.contains('\n') || t.contains("--") || t.contains("{-") || t.contains("-}") {
        return false;
    }
    let l = lex::lex(t);
    if l.unterminated.is_some() || l.ambiguous || l.junk.is_some() {
        return false;
    }
    let mut open = vec![];
    for (t, _, _) in &l.toks {
        match t {
            Tok::Sym(c @ '(') | Tok::Sym(c @ '[') | Tok::Sym(c @ '{') => open.push(*c),
            Tok::Sym(')') if open.pop() != Some('(') => return false,
            Tok::Sym(']') if open.pop() != Some('[') => return false,
            Tok::Sym('}') if open.pop() != Some('{') => return false,
            _ => {}
        }
    }
    open.is_empty()
}

pub fn c27(cx: &mut Ctx) -> Result<(), Fail> {
    let types = cx.src.chance(300);
    // the surroundings; they and what is put in have more in common than by chance
    let alike = if cx.src.chance(300) { Some(cx.src.below(KINDS)) } else { None };
    let ops = if cx.src.chance(300) {
        let mut g = Gen::new(cx.src, cx.d);
        Sub { op: Some(g.op()), ..Sub::default() }
    } else {
        Sub::default()
    };
    let mut stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.fuel = g.fuel.min(100);
        if let Some(k) = alike {
            g.boost(&[k], 20);
        }
        match (types, g.src.below(4)) {
            (true, 0) => vec![g.type_alias()],
            (true, 1) => vec![g.type_decl()],
            (_, 2) => vec![g.top_function()],
            (_, 3) => vec![g.port(), g.top_function()],
            _ => g.module(),
        }
    };
    stmts = stmts.iter().map(|s| ops.s(s)).collect();
    let mut d = Dig::new(NOWHERE, types);
    stmts.iter_mut().for_each(|s| d.s(s));
    if d.seen == 0 {
        return Ok(());
    }
    let mut d = Dig::new(cx.src.below(d.seen), types);
    stmts.iter_mut().for_each(|s| d.s(s));
    let hole = if types { TYPE_HOLE } else { HOLE };
    let st = Style::draw(cx.src);
    let mut text = print_module(&stmts, cx.src, st, &[]).text;
    let around = cx.src.weighted(&[60, 25, 15]);
    for _ in 0..around {
        text = mutate::mutate(&text, cx.src, cx.d);
    }
    if text.matches(hole).count() != 1 {
        return Ok(());
    }
    let mut before = match parse(&text) {
        Out::Ast { ref rest, ref dump } if rest.is_empty() => match from_debug(dump) {
            Ok(a) => a,
            Err(e) => return fail(&format!("the AST cannot be read: {}", e), &text, "an AST", dump),
        },
        o if around == 0 => return fail("a generated program was rejected", &text, "accepted", &o.show()),
        _ => {
            cx.labels.push("surroundings rejected");
            return Ok(());
        }
    };
    if around > 0 {
        // the edit may have left the hole in a place that is not one for expressions
        let mut d = Dig::new(NOWHERE, types);
        before.iter_mut().for_each(|s| d.s(s));
        if !d.found {
            return Ok(());
        }
        cx.labels.push("edited surroundings");
    }
    // what is put in, nearly always well formed or nearly so
    let near: Vec<String> = {
        let l = lex::lex(&text);
        let at = text.find(hole).unwrap_or(0);
        let i = l.toks.iter().position(|t| t.1 == at).unwrap_or(0);
        let words = l.toks.iter().skip(i.saturating_sub(4)).take(8);
        words.filter_map(|(t, _, _)| if let Tok::Word(w) = t { Some(w.clone()) } else { None }).filter(|w| w != hole).collect()
    };
    let mut piece = {
        let mut g = Gen::new(cx.src, cx.d);
        if g.src.chance(400) {
            near.iter().for_each(|w| g.know(w));
            g.reuse = 400;
        }
        g.fuel = g.fuel.min(25);
        if let Some(k) = alike {
            g.boost(&[k], 20);
        }
        if types {
            let t = g.type_();
            show_type(g.src, &t)
        } else {
            let e = if g.src.chance(200) { g.pattern() } else { g.expr() };
            show_expr(g.src, &ops.e(&e))
        }
    };
    let edits = cx.src.weighted(&[55, 30, 15]);
    for _ in 0..edits {
        piece = mutate::mutate(&piece, cx.src, cx.d);
    }
    if !closed(&piece) {
        cx.labels.push("piece not used");
        return Ok(());
    }
    let alone = if types { format!("x : ({})\nx = 1\n", piece) } else { format!("x = ({})\n", piece) };
    let with = text.replacen(hole, &format!("({})", piece), 1);
    cx.text.push_str(&with);
    cx.nontrivial = piece.len() > 2;
    cx.labels.push(if types { "type" } else { "expression" });
    let value = match parse(&alone) {
        Out::Ast { ref rest, ref dump } if rest.is_empty() => {
            let v = from_debug(dump).unwrap_or_default();
            match v.into_iter().next() {
                Some(Statement::Function(f)) => Some(f),
                _ => None,
            }
        }
        _ => None,
    };
    match value {
        Some(f) => {
            cx.labels.push("accepted");
            let none_t = Type::TypeTuple(vec![]);
            let want: Vec<Statement> = before
                .iter()
                .map(|s| match &f.signature {
                    Some(g) => fill(s, &var(HOLE), &g.type_),
                    None => fill(s, &f.definition.body, &none_t),
                })
                .collect();
            let want = dump_of(&want);
            match parse(&with) {
                Out::Ast { ref rest, ref dump } if rest.is_empty() && *dump == want => Ok(()),
                o => fail(&format!("in these surroundings the bracketed text means something else than alone:\n{}", piece), &with, &want, &o.show()),
            }
        }
        None => {
            cx.labels.push("rejected");
            match parse(&with) {
                Out::Rejected(_) => Ok(()),
                o => fail(&format!("the bracketed text is rejected alone but accepted in these surroundings:\n{}", piece), &with, "rejected", &o.show()),
            }
        }
    }
}
