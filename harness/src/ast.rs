//! A mirror of the parser's AST.  It is compared with the parser's only through the `Debug` form,
//! which is what `elm-parser-dump` prints: names of constructors and fields must match it.

#[derive(Debug, PartialEq, Clone)]
pub enum Assoc {
    N,
    L,
    R,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Type {
    TypeConstructor(Vec<String>, Vec<Type>),
    TypeVariable(String),
    TypeRecordConstructor(Box<Type>, Vec<(String, Type)>),
    TypeRecord(Vec<(String, Type)>),
    TypeTuple(Vec<Type>),
    TypeApplication(Box<Type>, Box<Type>),
}

#[derive(Debug, PartialEq, Clone)]
pub struct FunctionSignature {
    pub name: String,
    pub type_: Type,
}

#[derive(Debug, PartialEq, Clone)]
pub struct FunctionDefinition {
    pub name: String,
    pub args: Vec<Expr>,
    pub body: Expr,
}

#[derive(Debug, PartialEq, Clone)]
pub struct Function {
    pub signature: Option<FunctionSignature>,
    pub definition: FunctionDefinition,
}

#[derive(Debug, PartialEq, Clone)]
pub enum LetEntry {
    LetFunction(Function),
    LetBinding(Expr, Expr),
}

#[derive(Debug, PartialEq, Clone)]
pub enum Expr {
    Character(char),
    String(String),
    Integer(String),
    Float(String),
    Variable(Vec<String>),
    List(Vec<Expr>),
    Tuple(Vec<Expr>),
    Access(Box<Expr>, Vec<String>),
    AccessFunction(String),
    Record(Vec<(String, Expr)>),
    RecordUpdate(String, Vec<(String, Expr)>),
    If(Box<Expr>, Box<Expr>, Box<Expr>),
    Let(Vec<LetEntry>, Box<Expr>),
    Case(Box<Expr>, Vec<(Expr, Expr)>),
    Lambda(Vec<Expr>, Box<Expr>),
    Application(Box<Expr>, Box<Expr>),
    BinOp(Box<Expr>, Box<Expr>, Box<Expr>),
}

#[derive(Debug, PartialEq, Clone)]
pub enum ExportSet {
    AllExport,
    SubsetExport(Vec<ExportSet>),
    FunctionExport(String),
    TypeExport(String, Option<Box<ExportSet>>),
}

#[derive(Debug, PartialEq, Clone)]
pub enum Statement {
    ModuleDeclaration(Vec<String>, ExportSet),
    PortModuleDeclaration(Vec<String>, ExportSet),
    EffectModuleDeclaration(Vec<String>, Vec<(String, String)>, ExportSet),
    ImportStatement(Vec<String>, Option<String>, Option<ExportSet>),
    TypeAliasDeclaration(Type, Type),
    TypeDeclaration(Type, Vec<Type>),
    PortTypeDeclaration(String, Type),
    PortDeclaration(String, Vec<String>, Expr),
    Function(Function),
    InfixDeclaration(Assoc, i64, String),
    Comment(String),
}

pub fn var(name: &str) -> Expr {
    Expr::Variable(vec![name.to_string()])
}

pub fn is_op_name(name: &str) -> bool {
    name.chars().next().map(|c| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(false)
}

// ---------------------------------------------------------------------------------------------
// Reading a `{:?}` dump back

#[derive(Debug, Clone)]
enum Val {
    Node(String, Vec<Val>),          // Name(a, b) or Name
    Struct(String, Vec<(String, Val)>),
    List(Vec<Val>),
    Tup(Vec<Val>),
    Str(String),
    Chr(char),
    Num(i64),
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.get(self.i).cloned()
    }
    fn eat(&mut self, c: char) -> R<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c, self.i))
        }
    }
    fn escaped(&mut self, quote: char) -> R<String> {
        let mut out = String::new();
        loop {
            let c = *self.s.get(self.i).ok_or("unterminated literal")?;
            self.i += 1;
            if c == quote {
                return Ok(out);
            }
            if c != '\\' {
                out.push(c);
                continue;
            }
            let e = *self.s.get(self.i).ok_or("unterminated escape")?;
            self.i += 1;
            match e {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '0' => out.push('\0'),
                '\\' | '\'' | '"' => out.push(e),
                'u' => {
                    self.i += 1; // {
                    let mut v = 0u32;
                    while self.s.get(self.i).map(|c| *c != '}').unwrap_or(false) {
                        v = v * 16 + self.s[self.i].to_digit(16).ok_or("bad escape")?;
                        self.i += 1;
                    }
                    self.i += 1;
                    out.push(char::from_u32(v).ok_or("bad escape")?);
                }
                _ => return Err("unknown escape".to_string()),
            }
        }
    }
    fn seq(&mut self, close: char) -> R<Vec<Val>> {
        let mut out = vec![];
        loop {
            if self.peek() == Some(close) {
                self.i += 1;
                return Ok(out);
            }
            out.push(self.val()?);
            if self.peek() == Some(',') {
                self.i += 1;
            } else if self.peek() != Some(close) {
                return Err(format!("expected , or {:?} at {}", close, self.i));
            }
        }
    }
    fn val(&mut self) -> R<Val> {
        match self.peek().ok_or("end of input")? {
            '[' => {
                self.i += 1;
                Ok(Val::List(self.seq(']')?))
            }
            '(' => {
                self.i += 1;
                Ok(Val::Tup(self.seq(')')?))
            }
            '"' => {
                self.i += 1;
                Ok(Val::Str(self.escaped('"')?))
            }
            '\'' => {
                self.i += 1;
                let s = self.escaped('\'')?;
                Ok(Val::Chr(s.chars().next().ok_or("empty char")?))
            }
            c if c == '-' || c.is_ascii_digit() => {
                let mut t = String::new();
                while self.i < self.s.len() && (self.s[self.i] == '-' || self.s[self.i].is_ascii_digit()) {
                    t.push(self.s[self.i]);
                    self.i += 1;
                }
                t.parse().map(Val::Num).map_err(|_| "number".to_string())
            }
            c if c.is_ascii_alphabetic() => {
                let mut t = String::new();
                while self.i < self.s.len() && (self.s[self.i] == '_' || self.s[self.i].is_ascii_alphanumeric()) {
                    t.push(self.s[self.i]);
                    self.i += 1;
                }
                match self.peek() {
                    Some('(') => {
                        self.i += 1;
                        Ok(Val::Node(t, self.seq(')')?))
                    }
                    Some('{') => {
                        self.i += 1;
                        let mut fields = vec![];
                        loop {
                            if self.peek() == Some('}') {
                                self.i += 1;
                                return Ok(Val::Struct(t, fields));
                            }
                            let mut name = String::new();
                            while self.i < self.s.len() && (self.s[self.i] == '_' || self.s[self.i].is_ascii_alphanumeric()) {
                                name.push(self.s[self.i]);
                                self.i += 1;
                            }
                            self.eat(':')?;
                            let v = self.val()?;
                            fields.push((name, v));
                            if self.peek() == Some(',') {
                                self.i += 1;
                                self.ws();
                            }
                        }
                    }
                    _ => Ok(Val::Node(t, vec![])),
                }
            }
            c => Err(format!("unexpected {:?} at {}", c, self.i)),
        }
    }
}

fn bad<T>(v: &Val) -> R<T> {
    Err(format!("unexpected value {:?}", v))
}
fn s_(v: &Val) -> R<String> {
    match v {
        Val::Str(s) => Ok(s.clone()),
        _ => bad(v),
    }
}
fn list<T>(v: &Val, f: fn(&Val) -> R<T>) -> R<Vec<T>> {
    match v {
        Val::List(l) => l.iter().map(f).collect(),
        _ => bad(v),
    }
}
fn opt<T>(v: &Val, f: fn(&Val) -> R<T>) -> R<Option<T>> {
    match v {
        Val::Node(n, a) if n == "None" && a.is_empty() => Ok(None),
        Val::Node(n, a) if n == "Some" && a.len() == 1 => Ok(Some(f(&a[0])?)),
        _ => bad(v),
    }
}
fn pair<A, B>(v: &Val, f: fn(&Val) -> R<A>, g: fn(&Val) -> R<B>) -> R<(A, B)> {
    match v {
        Val::Tup(t) if t.len() == 2 => Ok((f(&t[0])?, g(&t[1])?)),
        _ => bad(v),
    }
}
fn bx<T>(v: &Val, f: fn(&Val) -> R<T>) -> R<Box<T>> {
    Ok(Box::new(f(v)?))
}
fn strs(v: &Val) -> R<Vec<String>> {
    list(v, s_)
}
fn field<'a>(v: &'a Val, name: &str) -> R<&'a Val> {
    match v {
        Val::Struct(_, fs) => fs.iter().find(|f| f.0 == name).map(|f| &f.1).ok_or_else(|| format!("no field {}", name)),
        _ => bad(v),
    }
}
fn ty(v: &Val) -> R<Type> {
    if let Val::Node(n, a) = v {
        return Ok(match (n.as_str(), a.len()) {
            ("TypeConstructor", 2) => Type::TypeConstructor(strs(&a[0])?, list(&a[1], ty)?),
            ("TypeVariable", 1) => Type::TypeVariable(s_(&a[0])?),
            ("TypeRecordConstructor", 2) => Type::TypeRecordConstructor(bx(&a[0], ty)?, list(&a[1], |v| pair(v, s_, ty))?),
            ("TypeRecord", 1) => Type::TypeRecord(list(&a[0], |v| pair(v, s_, ty))?),
            ("TypeTuple", 1) => Type::TypeTuple(list(&a[0], ty)?),
            ("TypeApplication", 2) => Type::TypeApplication(bx(&a[0], ty)?, bx(&a[1], ty)?),
            _ => return bad(v),
        });
    }
    bad(v)
}
fn func(v: &Val) -> R<Function> {
    let d = field(v, "definition")?;
    Ok(Function {
        signature: opt(field(v, "signature")?, |s| {
            Ok(FunctionSignature { name: s_(field(s, "name")?)?, type_: ty(field(s, "type_")?)? })
        })?,
        definition: FunctionDefinition {
            name: s_(field(d, "name")?)?,
            args: list(field(d, "args")?, ex)?,
            body: ex(field(d, "body")?)?,
        },
    })
}
fn entry(v: &Val) -> R<LetEntry> {
    match v {
        Val::Node(n, a) if n == "LetFunction" && a.len() == 1 => Ok(LetEntry::LetFunction(func(&a[0])?)),
        Val::Node(n, a) if n == "LetBinding" && a.len() == 2 => Ok(LetEntry::LetBinding(ex(&a[0])?, ex(&a[1])?)),
        _ => bad(v),
    }
}
fn ex(v: &Val) -> R<Expr> {
    if let Val::Node(n, a) = v {
        return Ok(match (n.as_str(), a.len()) {
            ("Character", 1) => match a[0] {
                Val::Chr(c) => Expr::Character(c),
                _ => return bad(v),
            },
            ("String", 1) => Expr::String(s_(&a[0])?),
            ("Integer", 1) => Expr::Integer(s_(&a[0])?),
            ("Float", 1) => Expr::Float(s_(&a[0])?),
            ("Variable", 1) => Expr::Variable(strs(&a[0])?),
            ("List", 1) => Expr::List(list(&a[0], ex)?),
            ("Tuple", 1) => Expr::Tuple(list(&a[0], ex)?),
            ("Access", 2) => Expr::Access(bx(&a[0], ex)?, strs(&a[1])?),
            ("AccessFunction", 1) => Expr::AccessFunction(s_(&a[0])?),
            ("Record", 1) => Expr::Record(list(&a[0], |v| pair(v, s_, ex))?),
            ("RecordUpdate", 2) => Expr::RecordUpdate(s_(&a[0])?, list(&a[1], |v| pair(v, s_, ex))?),
            ("If", 3) => Expr::If(bx(&a[0], ex)?, bx(&a[1], ex)?, bx(&a[2], ex)?),
            ("Let", 2) => Expr::Let(list(&a[0], entry)?, bx(&a[1], ex)?),
            ("Case", 2) => Expr::Case(bx(&a[0], ex)?, list(&a[1], |v| pair(v, ex, ex))?),
            ("Lambda", 2) => Expr::Lambda(list(&a[0], ex)?, bx(&a[1], ex)?),
            ("Application", 2) => Expr::Application(bx(&a[0], ex)?, bx(&a[1], ex)?),
            ("BinOp", 3) => Expr::BinOp(bx(&a[0], ex)?, bx(&a[1], ex)?, bx(&a[2], ex)?),
            _ => return bad(v),
        });
    }
    bad(v)
}
fn export(v: &Val) -> R<ExportSet> {
    if let Val::Node(n, a) = v {
        return Ok(match (n.as_str(), a.len()) {
            ("AllExport", 0) => ExportSet::AllExport,
            ("SubsetExport", 1) => ExportSet::SubsetExport(list(&a[0], export)?),
            ("FunctionExport", 1) => ExportSet::FunctionExport(s_(&a[0])?),
            ("TypeExport", 2) => ExportSet::TypeExport(s_(&a[0])?, opt(&a[1], export)?.map(Box::new)),
            _ => return bad(v),
        });
    }
    bad(v)
}
fn stmt(v: &Val) -> R<Statement> {
    use Statement::*;
    if let Val::Node(n, a) = v {
        return Ok(match (n.as_str(), a.len()) {
            ("ModuleDeclaration", 2) => ModuleDeclaration(strs(&a[0])?, export(&a[1])?),
            ("PortModuleDeclaration", 2) => PortModuleDeclaration(strs(&a[0])?, export(&a[1])?),
            ("EffectModuleDeclaration", 3) => {
                EffectModuleDeclaration(strs(&a[0])?, list(&a[1], |v| pair(v, s_, s_))?, export(&a[2])?)
            }
            ("ImportStatement", 3) => ImportStatement(strs(&a[0])?, opt(&a[1], s_)?, opt(&a[2], export)?),
            ("TypeAliasDeclaration", 2) => TypeAliasDeclaration(ty(&a[0])?, ty(&a[1])?),
            ("TypeDeclaration", 2) => TypeDeclaration(ty(&a[0])?, list(&a[1], ty)?),
            ("PortTypeDeclaration", 2) => PortTypeDeclaration(s_(&a[0])?, ty(&a[1])?),
            ("PortDeclaration", 3) => PortDeclaration(s_(&a[0])?, strs(&a[1])?, ex(&a[2])?),
            ("Function", 1) => Function(func(&a[0])?),
            ("InfixDeclaration", 3) => {
                let assoc = match &a[0] {
                    Val::Node(n, _) if n == "L" => Assoc::L,
                    Val::Node(n, _) if n == "R" => Assoc::R,
                    Val::Node(n, _) if n == "N" => Assoc::N,
                    v => return bad(v),
                };
                let p = match a[1] {
                    Val::Num(n) => n,
                    _ => return bad(v),
                };
                InfixDeclaration(assoc, p, s_(&a[2])?)
            }
            ("Comment", 1) => Comment(s_(&a[0])?),
            _ => return bad(v),
        });
    }
    bad(v)
}

/// Reads the `{:?}` (or `{:#?}`) form of a statement list.
pub fn from_debug(text: &str) -> R<Vec<Statement>> {
    let chars: Vec<char> = text.chars().collect();
    let mut p = P { s: &chars, i: 0 };
    let v = p.val()?;
    if p.peek().is_some() {
        return Err("text after the value".to_string());
    }
    list(&v, stmt)
}
