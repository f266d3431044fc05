//! Writes an AST out as Elm source.  Every point where the syntax admits white space is a *slot*;
//! what is put there (nothing, spaces, new lines with some indentation, comments) is drawn from
//! the choice sequence within what the slot admits.
//!
//! The indentation rules are those of the language as the parser's `IR` type names them: relative
//! to the indentation `ind` of the enclosing construct a continuation line must be strictly
//! deeper (GT), at least as deep (GTE), or aligned (EQ).  In addition no line ever goes back to or
//! beyond the column of the declaration, let entry or case branch it belongs to (`floor`), which
//! Elm demands.

use crate::ast::*;
use crate::choice::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule {
    Gt,
    Gte,
    Eq,
}

/// A line break written in a slot with an indentation rule.
#[derive(Clone, Debug)]
pub struct Slot {
    pub start: usize, // byte offset of the first space of the indentation
    pub len: usize,
    pub rule: Rule,
    pub ind: usize,
    pub what: &'static str,
}

#[derive(Clone, Copy)]
pub struct C {
    ind: usize,
    floor: usize,
}

#[derive(Clone)]
pub struct Style {
    pub newline: u32, // per mille
    pub comment: u32,
    pub blank: u32,
    pub wide: u32,
    pub tight: u32, // leave out optional space
    pub parens: u32,
    pub deep: u32, // unusual indentation
}

impl Style {
    pub fn canonical() -> Style {
        Style { newline: 0, comment: 0, blank: 0, wide: 0, tight: 0, parens: 0, deep: 0 }
    }
    pub fn draw(src: &mut Src) -> Style {
        let lvl = |src: &mut Src, opts: &[u32]| *src.pick(opts);
        Style {
            newline: lvl(src, &[0, 30, 100, 250, 500, 800]),
            comment: lvl(src, &[0, 0, 30, 200]),
            blank: lvl(src, &[0, 50, 300]),
            wide: lvl(src, &[0, 30, 200]),
            tight: lvl(src, &[0, 200, 700]),
            parens: lvl(src, &[0, 0, 20, 80]),
            deep: lvl(src, &[0, 30, 200]),
        }
    }
}

pub struct Printer<'a> {
    pub out: String,
    src: &'a mut Src,
    st: Style,
    pub slots: Vec<Slot>,
    tight: bool, // an optional slot was left empty just now
    line: usize, // byte offset of the start of the current line
    pub max_indent: usize,
    pub ints: Vec<usize>, // unusual indentation widths worth trying
    pub n_newlines: usize,
    pub n_comments: usize,
    pub n_parens: usize,
    pub n_blank: usize,
}

fn opch(c: char) -> bool {
    "-+/*=.$<>:&|^?%#@~!\\".contains(c)
}
fn idch(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

pub fn atomic(e: &Expr) -> bool {
    match e {
        Expr::If(..) | Expr::Let(..) | Expr::Case(..) | Expr::Lambda(..) | Expr::Application(..) | Expr::BinOp(..) => false,
        _ => true,
    }
}

/// Whether `"content"` is read as one single-line string with that content.
pub fn single_ok(content: &str) -> bool {
    let c: Vec<char> = content.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '"' | '\n' => return false,
            '\\' => {
                if i + 1 == c.len() {
                    return false;
                }
                if c[i + 1] == '\n' {
                    return false;
                }
                i += 2;
            }
            _ => i += 1,
        }
    }
    true
}

/// Whether `"""content"""` is read as one string with that content.
pub fn triple_ok(content: &str) -> bool {
    let c: Vec<char> = content.chars().collect();
    let mut i = 0;
    let mut quotes = 0;
    while i < c.len() {
        match c[i] {
            '"' => {
                quotes += 1;
                if quotes == 3 {
                    return false;
                }
                i += 1;
            }
            '\\' => {
                if i + 1 == c.len() {
                    return false;
                }
                quotes = 0;
                i += 2;
            }
            _ => {
                quotes = 0;
                i += 1;
            }
        }
    }
    quotes == 0
}

pub fn simple_record(fields: &[(String, Expr)]) -> bool {
    !fields.is_empty()
        && fields.iter().all(|(k, v)| match v {
            Expr::Variable(n) => n.len() == 1 && n[0] == *k,
            _ => false,
        })
}

impl<'a> Printer<'a> {
    pub fn new(src: &'a mut Src, st: Style) -> Printer<'a> {
        Printer {
            out: String::new(),
            src,
            st,
            slots: vec![],
            tight: false,
            line: 0,
            max_indent: 0,
            ints: vec![],
            n_newlines: 0,
            n_comments: 0,
            n_parens: 0,
            n_blank: 0,
        }
    }

    fn col(&self) -> usize {
        self.out.len() - self.line
    }

    fn tok(&mut self, t: &str) {
        if self.tight {
            self.tight = false;
            if let (Some(a), Some(b)) = (self.out.chars().next_back(), t.chars().next()) {
                if (opch(a) && opch(b)) || (idch(a) && (idch(b) || b == '.')) || (a == '{' && b == '-') || (a == '"' && b == '"') {
                    self.out.push(' ');
                }
            }
        }
        self.out.push_str(t);
        if let Some(p) = t.rfind('\n') {
            self.line = self.out.len() - (t.len() - p - 1);
        }
    }

    fn sp(&mut self) {
        // one or more spaces
        self.tight = false;
        let n = if self.src.chance(self.st.wide) { *self.src.pick(&[2usize, 3, 5, 9, 17]) } else { 1 };
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    fn sp_opt(&mut self) {
        if self.src.chance(self.st.tight) {
            self.tight = true;
        } else {
            self.sp();
        }
    }

    fn comment_text(&mut self) {
        self.n_comments += 1;
        self.out.push_str("--");
        let pool = [" note", "", " -- nested", " it's \"quoted", " { [ (", " {- not a block", " ) ] } -}", "| doc", " in of then else", " ünïcode ✓", "-", " a -> b", " = 1", " \\"];
        let i = self.src.below(pool.len());
        self.out.push_str(pool[i]);
    }

    fn newline(&mut self) {
        self.out.push('\n');
        self.line = self.out.len();
    }

    fn indent_of(&mut self, min: usize) -> usize {
        if self.src.chance(self.st.deep) {
            let extra = match self.src.below(4) {
                0 => self.src.range(0, 3),
                1 => self.src.range(4, 12),
                2 => self.src.range(13, 40),
                _ => {
                    if self.ints.is_empty() {
                        self.src.range(0, 8)
                    } else {
                        let i = self.src.below(self.ints.len());
                        let d = self.src.range(0, 2);
                        return min.max((self.ints[i] + d).saturating_sub(1).min(300));
                    }
                }
            };
            min + extra
        } else {
            min
        }
    }

    /// The general slot: spaces, comments, new lines.  Returns the indentation in force after it.
    fn slot(&mut self, c: C, rule: Rule, optional: bool, force_newline: bool, may_break: bool, what: &'static str) -> usize {
        let nl = force_newline || (may_break && self.src.chance(self.st.newline));
        if !nl {
            if optional {
                self.sp_opt();
            } else {
                self.sp();
            }
            return c.ind;
        }
        self.tight = false;
        self.n_newlines += 1;
        // rest of the current line
        if self.src.chance(self.st.comment) {
            self.out.push(' ');
            self.comment_text();
        } else if self.src.chance(self.st.wide) {
            self.sp();
        }
        self.newline();
        // blank and comment lines
        while self.src.chance(self.st.blank) {
            self.n_blank += 1;
            let k = if self.src.chance(self.st.wide) { self.src.range(0, 9) } else { 0 };
            for _ in 0..k {
                self.out.push(' ');
            }
            if self.src.chance(self.st.comment) {
                self.comment_text();
            }
            self.newline();
        }
        if self.src.chance(self.st.comment / 2) {
            let k = self.src.range(0, 12);
            for _ in 0..k {
                self.out.push(' ');
            }
            self.comment_text();
            self.newline();
        }
        let n = match rule {
            Rule::Eq => c.ind,
            Rule::Gt => self.indent_of(c.floor.max(c.ind + 1)),
            Rule::Gte => self.indent_of(c.floor.max(c.ind)),
        };
        self.slots.push(Slot { start: self.out.len(), len: n, rule, ind: c.ind, what });
        for _ in 0..n {
            self.out.push(' ');
        }
        self.max_indent = self.max_indent.max(n);
        n
    }

    fn ws(&mut self, c: C, rule: Rule, what: &'static str) -> usize {
        self.slot(c, rule, false, false, true, what)
    }
    fn ows(&mut self, c: C, what: &'static str) {
        self.slot(c, Rule::Gte, true, false, true, what);
    }

    /// Spaces and new lines only, no indentation rule of its own.
    fn plain(&mut self, c: C, optional: bool) {
        if self.src.chance(self.st.newline) {
            self.tight = false;
            self.n_newlines += 1;
            self.newline();
            while self.src.chance(self.st.blank) {
                self.n_blank += 1;
                self.newline();
            }
            let n = self.indent_of(c.floor.max(c.ind));
            for _ in 0..n {
                self.out.push(' ');
            }
            self.max_indent = self.max_indent.max(n);
        } else if optional {
            self.sp_opt();
        } else {
            self.sp();
        }
    }

    // ----------------------------------------------------------------------------- expressions

    fn parens(&mut self, e: &Expr, c: C) {
        self.tok("(");
        self.plain(c, true);
        self.expr(e, c);
        self.plain(c, true);
        self.tok(")");
    }

    fn extra_parens(&mut self) -> bool {
        if self.src.chance(self.st.parens) {
            self.n_parens += 1;
            true
        } else {
            false
        }
    }

    pub fn expr(&mut self, e: &Expr, c: C) {
        if self.st.parens > 0 && self.extra_parens() {
            return self.parens(e, c);
        }
        match e {
            Expr::BinOp(op, l, r) => {
                match **l {
                    Expr::Application(..) => self.app(l, c),
                    _ => self.term(l, c),
                }
                self.ws(c, Rule::Gte, "operator");
                match &**op {
                    Expr::Variable(n) => self.tok(&n[0].clone()),
                    _ => self.tok("?"),
                }
                self.plain(c, false);
                self.expr(r, c);
            }
            Expr::Let(entries, body) => self.let_(entries, body, c),
            Expr::Case(e, branches) => self.case(e, branches, c),
            Expr::If(a, b, d) => {
                self.tok("if");
                self.ws(c, Rule::Gte, "after if");
                self.expr(a, c);
                self.ws(c, Rule::Gte, "then");
                self.tok("then");
                let n = self.ws(c, Rule::Gte, "after then");
                self.expr(b, C { ind: n, ..c });
                self.ws(c, Rule::Gte, "else");
                self.tok("else");
                let n = self.ws(c, Rule::Gte, "after else");
                self.expr(d, C { ind: n, ..c });
            }
            Expr::Lambda(args, body) => {
                self.tok("\\");
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    self.term(a, c);
                }
                self.ws(c, Rule::Gte, "lambda arrow");
                self.tok("->");
                let n = self.ws(c, Rule::Gte, "lambda body");
                self.expr(body, C { ind: n, ..c });
            }
            Expr::Application(..) => self.app(e, c),
            _ => self.term(e, c),
        }
    }

    fn app(&mut self, e: &Expr, c: C) {
        let mut spine = vec![];
        let mut f = e;
        while let Expr::Application(g, a) = f {
            spine.push(&**a);
            f = g;
        }
        self.term(f, c);
        for a in spine.iter().rev() {
            self.ws(c, Rule::Gt, "argument");
            self.term(a, c);
        }
    }

    fn fields(&mut self, fields: &[(String, Expr)], c: C) {
        for (i, (k, v)) in fields.iter().enumerate() {
            if i > 0 {
                self.ows(c, "record comma");
                self.tok(",");
                self.ows(c, "record entry");
            }
            self.tok(k);
            self.ows(c, "record equals");
            self.tok("=");
            self.ows(c, "record value");
            self.expr(v, c);
        }
    }

    fn simplified(&mut self, fields: &[(String, Expr)], c: C) {
        self.tok("{");
        for (i, (k, _)) in fields.iter().enumerate() {
            if i > 0 {
                self.tok(",");
            }
            self.plain(c, true);
            self.tok(k);
            self.plain(c, true);
        }
        self.tok("}");
    }

    pub fn term(&mut self, e: &Expr, c: C) {
        if !atomic(e) || (self.st.parens > 0 && self.extra_parens()) {
            return self.parens(e, c);
        }
        match e {
            Expr::Character(ch) => {
                let t = self.character(*ch);
                self.tok(&t)
            }
            Expr::String(s) => {
                let triple = !single_ok(s) || (triple_ok(s) && self.src.chance(300));
                if triple {
                    self.tok("\"\"\"");
                    self.tok(s);
                    self.tok("\"\"\"");
                } else {
                    self.tok("\"");
                    self.tok(s);
                    self.tok("\"");
                }
            }
            Expr::Integer(s) | Expr::Float(s) => self.tok(s),
            Expr::Variable(n) => {
                if n.len() == 1 && is_op_name(&n[0]) {
                    self.tok("(");
                    self.tok(&n[0]);
                    self.tok(")");
                } else {
                    self.tok(&n.join("."));
                }
            }
            Expr::List(l) => {
                self.tok("[");
                self.ows(c, "list start");
                for (i, e) in l.iter().enumerate() {
                    if i > 0 {
                        self.ows(c, "list comma");
                        self.tok(",");
                        self.ows(c, "list entry");
                    }
                    self.expr(e, c);
                }
                if !l.is_empty() {
                    self.ows(c, "list end");
                }
                self.tok("]");
            }
            Expr::Tuple(l) => {
                self.tok("(");
                for (i, e) in l.iter().enumerate() {
                    if i > 0 {
                        self.tok(",");
                    }
                    self.plain(c, true);
                    self.expr(e, c);
                    self.plain(c, true);
                }
                if l.is_empty() {
                    self.tight = false;
                }
                self.tok(")");
            }
            Expr::Access(v, names) => {
                // the base is a plain variable
                match &**v {
                    Expr::Variable(n) if n.len() == 1 && is_op_name(&n[0]) => {
                        self.tok("(");
                        self.tok(&n[0]);
                        self.tok(")");
                    }
                    Expr::Variable(n) => self.tok(&n.join(".")),
                    _ => self.tok("?"),
                }
                for n in names {
                    self.tok(".");
                    self.tok(n);
                }
            }
            Expr::AccessFunction(n) => {
                self.tok(".");
                self.tok(n);
            }
            Expr::Record(fs) => {
                if simple_record(fs) && self.src.chance(500) {
                    return self.simplified(fs, c);
                }
                self.tok("{");
                self.ows(c, "record start");
                self.fields(fs, c);
                if !fs.is_empty() {
                    self.ows(c, "record end");
                }
                self.tok("}");
            }
            Expr::RecordUpdate(name, fs) => {
                self.tok("{");
                self.ows(c, "update start");
                self.tok(name);
                self.ows(c, "update bar");
                self.tok("|");
                self.plain(c, true);
                for (i, (k, v)) in fs.iter().enumerate() {
                    if i > 0 {
                        self.ows(c, "update comma");
                        self.tok(",");
                        self.ows(c, "update entry");
                    }
                    self.tok(k);
                    self.plain(c, true);
                    self.tok("=");
                    self.plain(c, true);
                    self.expr(v, c);
                }
                self.ows(c, "update end");
                self.tok("}");
            }
            _ => unreachable!(),
        }
    }

    fn character(&mut self, ch: char) -> String {
        let code = ch as u32;
        let hex = code < 256 && self.src.chance(250);
        if hex {
            let upper = self.src.chance(500);
            return if upper { format!("'\\x{:02X}'", code) } else { format!("'\\x{:02x}'", code) };
        }
        match ch {
            '\n' => "'\\n'".to_string(),
            '\r' => "'\\r'".to_string(),
            '\t' => "'\\t'".to_string(),
            '\\' => "'\\\\'".to_string(),
            '\'' => "'\\''".to_string(),
            '"' if self.src.chance(500) => "'\\\"'".to_string(),
            c => format!("'{}'", c),
        }
    }

    fn let_(&mut self, entries: &[LetEntry], body: &Expr, c: C) {
        self.tok("let");
        let has_sig = entries.iter().any(|e| match e {
            LetEntry::LetFunction(f) => f.signature.is_some(),
            _ => false,
        });
        let must = entries.len() > 1 || has_sig;
        let n = self.slot(c, Rule::Gte, false, must, true, "let entries");
        let col = self.col();
        for (i, e) in entries.iter().enumerate() {
            if i > 0 {
                self.slot(C { ind: n, floor: n }, Rule::Eq, false, true, true, "let entry");
            }
            let ec = C { ind: n, floor: c.floor.max(col + 1) };
            match e {
                LetEntry::LetFunction(f) => self.function(f, ec),
                LetEntry::LetBinding(t, v) => {
                    match t {
                        Expr::Record(fs) if fs.is_empty() || simple_record(fs) => self.simplified(fs, ec),
                        Expr::Variable(_) | Expr::List(_) | Expr::Tuple(_) => self.term(t, ec),
                        _ => self.parens(t, ec),
                    }
                    self.ws(ec, Rule::Gte, "binding equals");
                    self.tok("=");
                    let m = self.ws(ec, Rule::Gte, "binding value");
                    self.expr(v, C { ind: m, ..ec });
                }
            }
        }
        self.ws(c, Rule::Gte, "in");
        self.tok("in");
        self.ws(c, Rule::Gte, "let body");
        self.expr(body, c);
    }

    fn case(&mut self, e: &Expr, branches: &[(Expr, Expr)], c: C) {
        self.tok("case");
        self.ws(c, Rule::Gte, "case subject");
        self.expr(e, c);
        self.ws(c, Rule::Gte, "of");
        self.tok("of");
        let must = branches.len() > 1;
        let p = self.slot(c, Rule::Gte, false, must, true, "case branches");
        let col = self.col();
        for (i, (pat, body)) in branches.iter().enumerate() {
            if i > 0 {
                self.slot(C { ind: p, floor: p }, Rule::Eq, false, true, true, "case branch");
            }
            let bc = C { ind: p, floor: c.floor.max(col + 1) };
            self.expr(pat, bc);
            self.ws(bc, Rule::Gte, "branch arrow");
            self.tok("->");
            let m = self.ws(bc, Rule::Gte, "branch body");
            self.expr(body, C { ind: m, ..bc });
        }
    }

    // ------------------------------------------------------------------------------- functions

    fn def_name(&mut self, n: &str) {
        if is_op_name(n) {
            self.tok("(");
            self.tok(n);
            self.tok(")");
        } else {
            self.tok(n);
        }
    }

    fn function(&mut self, f: &Function, c: C) {
        if let Some(s) = &f.signature {
            self.def_name(&s.name);
            self.sp();
            self.tok(":");
            let n = self.ws(c, Rule::Gt, "signature type");
            self.annotation(&s.type_, C { ind: n, ..c });
            self.newline();
            for _ in 0..c.ind {
                self.out.push(' ');
            }
        }
        self.def_name(&f.definition.name);
        for a in &f.definition.args {
            self.sp();
            self.term(a, c);
        }
        self.sp();
        self.tok("=");
        let n = self.ws(c, Rule::Gt, "function body");
        self.expr(&f.definition.body, C { ind: n, ..c });
    }

    // ----------------------------------------------------------------------------------- types

    pub fn annotation(&mut self, t: &Type, c: C) {
        if self.st.parens > 0 && self.extra_parens() {
            return self.type_parens(t, c);
        }
        let mut t = t;
        while let Type::TypeApplication(a, b) = t {
            self.type_entry(a, c);
            self.plain(c, false);
            self.tok("->");
            self.plain(c, false);
            t = b;
            if let Type::TypeApplication(..) = t {
                if self.st.parens > 0 && self.extra_parens() {
                    return self.type_parens(t, c);
                }
            }
        }
        self.type_entry(t, c);
    }

    fn type_parens(&mut self, t: &Type, c: C) {
        self.tok("(");
        self.ows(c, "type bracket");
        self.annotation(t, c);
        self.ows(c, "type bracket end");
        self.tok(")");
    }

    /// One entry of a function type.
    fn type_entry(&mut self, t: &Type, c: C) {
        match t {
            Type::TypeApplication(..) => self.type_parens(t, c),
            _ if self.st.parens > 0 && self.extra_parens() => self.type_parens(t, c),
            Type::TypeConstructor(name, args) => self.type_constructor(name, args, c),
            _ => self.type_atom(t, c),
        }
    }

    fn type_constructor(&mut self, name: &[String], args: &[Type], c: C) {
        self.tok(&name.join("."));
        for a in args {
            let n = self.ws(c, Rule::Gt, "type argument");
            let ac = C { ind: n, ..c };
            match a {
                Type::TypeApplication(..) => self.type_parens(a, ac),
                Type::TypeConstructor(_, args) if !args.is_empty() => self.type_parens(a, ac),
                Type::TypeConstructor(name, _) => self.tok(&name.join(".")),
                _ if self.st.parens > 0 && self.extra_parens() => self.type_parens(a, ac),
                _ => self.type_atom(a, ac),
            }
        }
    }

    fn type_fields(&mut self, fs: &[(String, Type)], c: C) {
        for (i, (k, t)) in fs.iter().enumerate() {
            if i > 0 {
                self.ows(c, "type record comma");
                self.tok(",");
                self.ows(c, "type record entry");
            }
            self.tok(k);
            self.ows(c, "type record colon");
            self.tok(":");
            self.ows(c, "type record value");
            self.annotation(t, c);
        }
    }

    fn type_atom(&mut self, t: &Type, c: C) {
        match t {
            Type::TypeVariable(v) => self.tok(v),
            Type::TypeRecord(fs) => {
                self.tok("{");
                self.ows(c, "type record start");
                self.type_fields(fs, c);
                if !fs.is_empty() {
                    self.ows(c, "type record end");
                }
                self.tok("}");
            }
            Type::TypeRecordConstructor(v, fs) => {
                self.tok("{");
                self.ws(c, Rule::Gte, "extensible start");
                match &**v {
                    Type::TypeVariable(n) => self.tok(n),
                    _ => self.tok("?"),
                }
                self.ws(c, Rule::Gte, "extensible bar");
                self.tok("|");
                self.ws(c, Rule::Gte, "extensible fields");
                self.type_fields(fs, c);
                self.ws(c, Rule::Gte, "extensible end");
                self.tok("}");
            }
            Type::TypeTuple(l) => {
                self.tok("(");
                if !l.is_empty() {
                    self.ows(c, "type tuple start");
                }
                for (i, t) in l.iter().enumerate() {
                    if i > 0 {
                        self.ows(c, "type tuple comma");
                        self.tok(",");
                        self.ows(c, "type tuple entry");
                    }
                    self.annotation(t, c);
                }
                if !l.is_empty() {
                    self.ows(c, "type tuple end");
                }
                self.tok(")");
            }
            Type::TypeConstructor(name, args) => self.type_constructor(name, args, c),
            Type::TypeApplication(..) => self.type_parens(t, c),
        }
    }

    // ------------------------------------------------------------------------------ statements

    fn export_item(&mut self, e: &ExportSet) {
        match e {
            ExportSet::AllExport => self.tok(".."),
            ExportSet::FunctionExport(n) => self.def_name(n),
            ExportSet::TypeExport(n, set) => {
                self.tok(n);
                if let Some(set) = set {
                    self.tok("(");
                    match &**set {
                        ExportSet::SubsetExport(l) => {
                            for (i, e) in l.iter().enumerate() {
                                if i > 0 {
                                    self.tok(", ");
                                }
                                self.export_item(e);
                            }
                        }
                        other => self.export_item(other),
                    }
                    self.tok(")");
                }
            }
            ExportSet::SubsetExport(_) => self.tok("?"),
        }
    }

    fn exports(&mut self, e: &ExportSet, c: C) {
        self.tok("(");
        self.ows(c, "exposing start");
        match e {
            ExportSet::SubsetExport(l) => {
                for (i, e) in l.iter().enumerate() {
                    if i > 0 {
                        self.plain(c, true);
                        self.tok(",");
                        self.plain(c, true);
                    }
                    self.export_item(e);
                }
            }
            other => self.export_item(other),
        }
        self.ows(c, "exposing end");
        self.tok(")");
    }

    pub fn statement(&mut self, s: &Statement) {
        let c = C { ind: 0, floor: 1 };
        match s {
            Statement::ModuleDeclaration(name, ex) | Statement::PortModuleDeclaration(name, ex) => {
                if let Statement::PortModuleDeclaration(..) = s {
                    self.tok("port");
                    self.ws(c, Rule::Gt, "port module");
                }
                self.tok("module");
                self.ws(c, Rule::Gt, "module name");
                self.tok(&name.join("."));
                self.ws(c, Rule::Gt, "module exposing");
                self.tok("exposing");
                self.ws(c, Rule::Gt, "module exports");
                self.exports(ex, c);
            }
            Statement::EffectModuleDeclaration(name, wh, ex) => {
                self.tok("effect");
                self.ws(c, Rule::Gt, "effect module");
                self.tok("module");
                self.ws(c, Rule::Gt, "module name");
                self.tok(&name.join("."));
                self.ws(c, Rule::Gt, "module where");
                self.tok("where");
                self.ws(c, Rule::Gt, "module settings");
                self.tok("{");
                for (i, (a, b)) in wh.iter().enumerate() {
                    if i > 0 {
                        self.tok(", ");
                    }
                    self.tok(a);
                    self.sp_opt();
                    self.tok("=");
                    self.sp_opt();
                    self.tok(b);
                }
                self.tok("}");
                self.ws(c, Rule::Gt, "module exposing");
                self.tok("exposing");
                self.ws(c, Rule::Gt, "module exports");
                self.exports(ex, c);
            }
            Statement::ImportStatement(name, alias, ex) => {
                self.tok("import");
                self.sp();
                self.tok(&name.join("."));
                if let Some(a) = alias {
                    self.ws(c, Rule::Gt, "import as");
                    self.tok("as");
                    self.ws(c, Rule::Gt, "import alias");
                    self.tok(a);
                }
                if let Some(ex) = ex {
                    self.ws(c, Rule::Gt, "import exposing");
                    self.tok("exposing");
                    self.ws(c, Rule::Gt, "import exports");
                    self.exports(ex, c);
                }
            }
            Statement::TypeAliasDeclaration(name, t) => {
                self.tok("type");
                self.sp();
                self.tok("alias");
                self.sp();
                self.type_entry_plain(name, c);
                self.sp();
                self.tok("=");
                let c1 = C { ind: 1, ..c };
                self.ws(c1, Rule::Gte, "alias body");
                self.annotation(t, c1);
            }
            Statement::TypeDeclaration(name, ctors) => {
                self.tok("type");
                self.sp();
                self.type_entry_plain(name, c);
                let n = self.ws(c, Rule::Gt, "type equals");
                let tc = C { ind: n, ..c };
                self.tok("=");
                self.ws(tc, Rule::Gte, "first constructor");
                for (i, t) in ctors.iter().enumerate() {
                    if i > 0 {
                        self.ws(tc, Rule::Gte, "constructor bar");
                        self.tok("|");
                        self.sp();
                    }
                    match t {
                        Type::TypeConstructor(n, a) => self.type_constructor(n, a, tc),
                        _ => self.tok("?"),
                    }
                }
            }
            Statement::PortTypeDeclaration(name, t) => {
                self.tok("port");
                self.sp();
                self.tok(name);
                self.sp();
                self.tok(":");
                let n = self.ws(c, Rule::Gt, "port type");
                self.annotation(t, C { ind: n, ..c });
            }
            Statement::PortDeclaration(name, args, e) => {
                self.tok("port");
                self.sp();
                self.tok(name);
                for a in args {
                    self.sp();
                    self.tok(a);
                }
                self.sp();
                self.tok("=");
                let n = self.ws(c, Rule::Gt, "port body");
                self.expr(e, C { ind: n, ..c });
            }
            Statement::Function(f) => self.function(f, c),
            Statement::InfixDeclaration(a, p, name) => {
                self.tok(match a {
                    Assoc::L => "infixl",
                    Assoc::R => "infixr",
                    Assoc::N => "infix",
                });
                self.sp();
                let zeros = if self.src.chance(self.st.wide / 2) { self.src.range(1, 3) } else { 0 };
                for _ in 0..zeros {
                    self.tok("0");
                }
                self.tok(&p.to_string());
                self.sp();
                self.tok(name);
            }
            Statement::Comment(text) => {
                let line_ok = !text.contains('\n');
                let block_ok = block_comment_ok(text);
                let block = !line_ok || (block_ok && self.src.chance(500));
                if block {
                    self.tok("{-");
                    self.tok(text);
                    self.tok("-}");
                } else {
                    self.tok("--");
                    self.tok(text);
                }
            }
        }
    }

    /// The name on the left of a type declaration: never bracketed.
    fn type_entry_plain(&mut self, t: &Type, c: C) {
        match t {
            Type::TypeConstructor(name, args) => {
                self.tok(&name.join("."));
                for a in args {
                    self.sp();
                    match a {
                        Type::TypeApplication(..) => self.type_parens(a, c),
                        Type::TypeConstructor(_, args) if !args.is_empty() => self.type_parens(a, c),
                        Type::TypeConstructor(name, _) => self.tok(&name.join(".")),
                        _ => self.type_atom(a, c),
                    }
                }
            }
            _ => self.type_entry(t, c),
        }
    }

    /// The whole file.
    pub fn module(&mut self, stmts: &[Statement]) {
        if self.src.chance(self.st.blank) {
            for _ in 0..self.src.range(1, 3) {
                self.newline();
            }
        }
        for (i, s) in stmts.iter().enumerate() {
            // a comment may also stand at the end of a declaration's last line, or indented
            let after = match (i.checked_sub(1).map(|j| &stmts[j]), s) {
                (Some(Statement::Comment(_)), _) | (None, _) => false,
                (_, Statement::Comment(_)) => true,
                _ => false,
            };
            let same_line = after && self.src.chance(250);
            if same_line {
                for _ in 0..self.src.range(1, 3) {
                    self.out.push(' ');
                }
            } else {
                if i > 0 {
                    self.newline();
                }
                if i > 0 {
                    let sep = match self.src.below(8) {
                        0..=2 => 1,
                        3..=4 => 2,
                        5 => 0,
                        6 => 0,
                        _ => 4,
                    };
                    for _ in 0..sep {
                        if self.src.chance(self.st.wide / 2) {
                            self.sp();
                        }
                        self.newline();
                    }
                }
                if after && self.src.chance(150) {
                    for _ in 0..self.src.range(1, 5) {
                        self.out.push(' ');
                    }
                }
            }
            self.statement(s);
            self.tight = false;
            if self.src.chance(self.st.wide / 4) {
                if let Statement::Comment(_) = s {
                } else {
                    self.sp();
                }
            }
        }
        match self.src.below(6) {
            0..=3 => self.newline(),
            4 => {
                self.newline();
                self.newline();
                self.newline();
            }
            _ => {}
        }
    }
}

/// Whether `{-text-}` is read as one comment with that text (block comments do not nest).
pub fn block_comment_ok(text: &str) -> bool {
    let t = format!("{}-}}", text);
    t.find("-}") == Some(text.len())
}

pub struct Printed {
    pub text: String,
    pub slots: Vec<Slot>,
    pub max_indent: usize,
    pub newlines: usize,
    pub comments: usize,
    pub parens: usize,
    pub blanks: usize,
}

pub fn print_module(stmts: &[Statement], src: &mut Src, st: Style, ints: &[usize]) -> Printed {
    let mut p = Printer::new(src, st);
    p.ints = ints.to_vec();
    p.module(stmts);
    Printed {
        text: p.out,
        slots: p.slots,
        max_indent: p.max_indent,
        newlines: p.n_newlines,
        comments: p.n_comments,
        parens: p.n_parens,
        blanks: p.n_blank,
    }
}

/// One fixed, plain layout.
pub fn print_canonical(stmts: &[Statement]) -> String {
    let mut src = Src::replay(&[]);
    print_module(stmts, &mut src, Style::canonical(), &[]).text
}

pub fn top() -> C {
    C { ind: 0, floor: 1 }
}
