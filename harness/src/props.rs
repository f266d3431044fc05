//! The properties, each as a check of one generated case.

use crate::ast::*;
use crate::choice::Src;
use crate::dict::*;
use crate::engine::*;
use crate::gen::*;
use crate::lex;
use crate::meta;
use crate::mutate;
use crate::print::*;
use crate::reference;

// ------------------------------------------------------------------------------------ helpers

#[derive(Default)]
pub struct Shape {
    pub nodes: usize,
    pub kinds: u32,
    pub depth: usize,
    pub types: usize,
    pub stmts: u32,
}

pub fn kind_of(e: &Expr) -> usize {
    match e {
        Expr::Character(_) => CHR,
        Expr::String(_) => STR,
        Expr::Integer(_) => INT,
        Expr::Float(_) => FLOAT,
        Expr::Variable(n) if n.len() == 1 && !(is_lo(&n[0]) || n[0] == "_" || is_up(&n[0])) => OPVAR,
        Expr::Variable(n) if n.len() == 1 && !is_up(&n[0]) => VAR,
        Expr::Variable(_) => QUAL,
        Expr::List(_) => LIST,
        Expr::Tuple(l) if l.is_empty() => UNIT,
        Expr::Tuple(_) => TUPLE,
        Expr::Access(..) => ACCESS,
        Expr::AccessFunction(_) => ACCESSFN,
        Expr::Record(_) => RECORD,
        Expr::RecordUpdate(..) => UPDATE,
        Expr::If(..) => IF,
        Expr::Let(..) => LET,
        Expr::Case(..) => CASE,
        Expr::Lambda(..) => LAMBDA,
        Expr::Application(..) => APP,
        Expr::BinOp(..) => BINOP,
    }
}

/// Visits every expression, with its depth.
pub fn each_expr(e: &Expr, depth: usize, f: &mut dyn FnMut(&Expr, usize)) {
    f(e, depth);
    let d = depth + 1;
    match e {
        Expr::List(l) | Expr::Tuple(l) => l.iter().for_each(|e| each_expr(e, d, f)),
        Expr::Access(b, _) => each_expr(b, d, f),
        Expr::Record(fs) | Expr::RecordUpdate(_, fs) => fs.iter().for_each(|x| each_expr(&x.1, d, f)),
        Expr::If(a, b, c) => {
            each_expr(a, d, f);
            each_expr(b, d, f);
            each_expr(c, d, f)
        }
        Expr::BinOp(o, b, c) => {
            each_expr(o, d, f);
            each_expr(b, d, f);
            each_expr(c, d, f)
        }
        Expr::Application(a, b) => {
            each_expr(a, d, f);
            each_expr(b, d, f)
        }
        Expr::Lambda(a, b) => {
            a.iter().for_each(|e| each_expr(e, d, f));
            each_expr(b, d, f)
        }
        Expr::Case(s, bs) => {
            each_expr(s, d, f);
            bs.iter().for_each(|x| {
                each_expr(&x.0, d, f);
                each_expr(&x.1, d, f)
            })
        }
        Expr::Let(es, b) => {
            for x in es {
                match x {
                    LetEntry::LetBinding(t, v) => {
                        each_expr(t, d, f);
                        each_expr(v, d, f)
                    }
                    LetEntry::LetFunction(g) => {
                        g.definition.args.iter().for_each(|e| each_expr(e, d, f));
                        each_expr(&g.definition.body, d, f)
                    }
                }
            }
            each_expr(b, d, f)
        }
        _ => {}
    }
}

pub fn each_type(t: &Type, f: &mut dyn FnMut(&Type)) {
    f(t);
    match t {
        Type::TypeConstructor(_, l) | Type::TypeTuple(l) => l.iter().for_each(|t| each_type(t, f)),
        Type::TypeRecordConstructor(b, fs) => {
            each_type(b, f);
            fs.iter().for_each(|x| each_type(&x.1, f))
        }
        Type::TypeRecord(fs) => fs.iter().for_each(|x| each_type(&x.1, f)),
        Type::TypeApplication(a, b) => {
            each_type(a, f);
            each_type(b, f)
        }
        Type::TypeVariable(_) => {}
    }
}

fn fn_parts<'a>(f: &'a Function, es: &mut Vec<&'a Expr>, ts: &mut Vec<&'a Type>) {
    if let Some(s) = &f.signature {
        ts.push(&s.type_);
    }
    es.extend(f.definition.args.iter());
    es.push(&f.definition.body);
}

pub fn shape(stmts: &[Statement]) -> Shape {
    let mut s = Shape::default();
    let mut es = vec![];
    let mut ts = vec![];
    for st in stmts {
        let b = match st {
            Statement::ModuleDeclaration(..) => 0,
            Statement::PortModuleDeclaration(..) => 1,
            Statement::EffectModuleDeclaration(..) => 2,
            Statement::ImportStatement(..) => 3,
            Statement::TypeAliasDeclaration(a, t) => {
                ts.push(a);
                ts.push(t);
                4
            }
            Statement::TypeDeclaration(a, l) => {
                ts.push(a);
                ts.extend(l.iter());
                5
            }
            Statement::PortTypeDeclaration(_, t) => {
                ts.push(t);
                6
            }
            Statement::PortDeclaration(_, _, e) => {
                es.push(e);
                7
            }
            Statement::Function(f) => {
                fn_parts(f, &mut es, &mut ts);
                8
            }
            Statement::InfixDeclaration(..) => 9,
            Statement::Comment(_) => 10,
        };
        s.stmts |= 1 << b;
    }
    let mut extra_types = 0;
    for e in es {
        each_expr(e, 1, &mut |e, d| {
            s.nodes += 1;
            s.kinds |= 1 << kind_of(e);
            s.depth = s.depth.max(d);
            if let Expr::Let(l, _) = e {
                for x in l {
                    if let LetEntry::LetFunction(f) = x {
                        if let Some(sig) = &f.signature {
                            each_type(&sig.type_, &mut |_| extra_types += 1);
                        }
                    }
                }
            }
        });
    }
    for t in ts {
        each_type(t, &mut |_| s.types += 1);
    }
    s.types += extra_types;
    s
}

pub fn dump_of(stmts: &[Statement]) -> String {
    format!("{:?}", stmts)
}

fn ints(d: &Dict) -> Vec<usize> {
    d.ints.iter().filter(|n| **n > 1 && **n < 200).map(|n| *n as usize).collect()
}

/// Prints, parses, and demands exactly the AST that was printed.
fn agree(cx: &mut Ctx, what: &str, stmts: &[Statement]) -> Result<Printed, Fail> {
    let st = Style::draw(cx.src);
    agree_in(cx, what, stmts, st)
}

fn agree_in(cx: &mut Ctx, what: &str, stmts: &[Statement], st: Style) -> Result<Printed, Fail> {
    let p = print_module(stmts, cx.src, st, &ints(cx.d));
    cx.text.push_str(&p.text);
    expect_ast(what, &p.text, stmts)?;
    if p.newlines > 0 {
        cx.labels.push("line breaks inside a declaration");
    }
    if p.comments > 0 {
        cx.labels.push("comments between tokens");
    }
    if p.parens > 0 {
        cx.labels.push("redundant brackets");
    }
    if p.blanks > 0 {
        cx.labels.push("blank lines inside a declaration");
    }
    if p.max_indent > 20 {
        cx.labels.push("indentation over 20");
    }
    Ok(p)
}

/// Any text: the parser must do with it what the reference model does. With `only_accepted`, a text
/// the parser rejects is no concern of the property.
pub fn against_reference(cx: &mut Ctx, what: &str, text: &str, only_accepted: bool) -> Result<(), Fail> {
    let got = parse(text);
    EDITED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if only_accepted && !got.accepted() {
        cx.labels.push("edited, rejected");
        return Ok(());
    }
    let want = reference::module(text);
    match (&want, &got) {
        (Some(v), Out::Ast { rest, dump }) if rest.is_empty() && *dump == dump_of(v) => {
            cx.labels.push("edited, accepted");
            Ok(())
        }
        (None, Out::Rejected(_)) => {
            cx.labels.push("edited, rejected");
            Ok(())
        }
        _ => fail(what, text, &want.map(|v| dump_of(&v)).unwrap_or_else(|| "rejected".to_string()), &got.show()),
    }
}

/// Runs a check, then edits the text it used (the last one, if it used several) and has the edited
/// text read by the parser and the reference model.
pub fn with_edits(cx: &mut Ctx, check: Check, per_mille: u32, kinds: &[usize], only_accepted: bool) -> Result<(), Fail> {
    check(cx)?;
    let start = match cx.text.rfind("\n=====") {
        Some(p) => p + 1 + cx.text[p + 1..].find('\n').map(|n| n + 1).unwrap_or(0),
        None => 0,
    };
    let base = cx.text[start..].to_string();
    if base.len() > 4000 || !cx.src.chance(per_mille) {
        return Ok(());
    }
    if base.len() <= 220 && cx.src.chance(4) {
        // every small edit of it
        let mut bad = None;
        mutate::neighbours(&base, kinds == mutate::LAYOUT, &mut |t| {
            let mut labels = vec![];
            std::mem::swap(&mut labels, &mut cx.labels);
            let r = against_reference(cx, "a text one small edit away is not read as the reference model reads it", &t, only_accepted);
            std::mem::swap(&mut labels, &mut cx.labels);
            bad = r.err();
            bad.is_none()
        });
        cx.labels.push("every small edit");
        if let Some(f) = bad {
            return Err(f);
        }
    }
    let k = if base.len() > 1500 { 1 } else { cx.src.range(1, 4) };
    for _ in 0..k {
        let mut t = base.clone();
        for _ in 0..cx.src.weighted(&[0, 70, 25, 5]) {
            let kind = if kinds.is_empty() { cx.src.below(mutate::KINDS) } else { *cx.src.pick(kinds) };
            t = mutate::mutate_by(kind, &t, cx.src, cx.d);
        }
        cx.text.push_str("\n=====\n");
        cx.text.push_str(&t);
        against_reference(cx, "an edited text is not read as the reference model reads it", &t, only_accepted)?;
    }
    Ok(())
}

pub fn expect_ast(what: &str, text: &str, stmts: &[Statement]) -> Result<(), Fail> {
    let want = dump_of(stmts);
    match parse(text) {
        Out::Ast { ref rest, ref dump } if rest.is_empty() && *dump == want => Ok(()),
        o => fail(what, text, &want, &o.show()),
    }
}

pub fn expect_rejected(what: &str, text: &str) -> Result<(), Fail> {
    match parse(text) {
        Out::Rejected(_) => Ok(()),
        o => fail(what, text, "rejected", &o.show()),
    }
}

fn one_line(src: &mut Src, f: &dyn Fn(&mut Printer)) -> String {
    let mut none = Src::replay(&[]);
    let _ = src;
    let mut p = Printer::new(&mut none, Style::canonical());
    f(&mut p);
    p.out
}

/// An expression on one line, for use inside hand-made texts.
pub fn show_expr(src: &mut Src, e: &Expr) -> String {
    one_line(src, &|p| p.expr(e, top()))
}
pub fn show_term(src: &mut Src, e: &Expr) -> String {
    one_line(src, &|p| p.term(e, top()))
}
pub fn show_type(src: &mut Src, t: &Type) -> String {
    one_line(src, &|p| p.annotation(t, top()))
}

/// An expression that fits on one line.
fn flat_expr(g: &mut Gen) -> Expr {
    let w = g.w;
    for k in &[LET, CASE, STR] {
        g.w[*k] = 0;
    }
    let f = g.fuel;
    g.fuel = f.min(6);
    let e = g.expr();
    g.w = w;
    e
}
fn flat_type(g: &mut Gen) -> Type {
    g.fuel = g.fuel.min(5);
    g.type_()
}

/// A module around one focus expression: `body` somewhere inside a definition, possibly nested in
/// other constructs and with other declarations around it.
fn around(g: &mut Gen, kinds: &[usize]) -> Vec<Statement> {
    let k = *g.src.pick(kinds);
    let mut e = g.kind(k);
    if g.src.chance(60) {
        let n = g.size(2, 4, 60);
        e = g.nest(kinds, n, e);
    }
    if g.src.chance(300) {
        let n = g.src.range(1, 4);
        e = g.nest(&[LIST, TUPLE, RECORD, UPDATE, IF, LET, CASE, LAMBDA, APP, BINOP], n, e);
    }
    let mut v = vec![];
    if g.src.chance(150) {
        v.push(g.statement());
    }
    v.push(if g.src.chance(200) {
        let mut f = g.function(false, 0);
        f.definition.body = e;
        Statement::Function(f)
    } else {
        g.def(e)
    });
    if g.src.chance(200) {
        v.push(g.statement());
    }
    v
}

fn label_kinds(cx: &mut Ctx, s: &Shape, of: &[(usize, &'static str)]) {
    for (k, l) in of {
        if s.kinds & (1 << k) != 0 {
            cx.labels.push(l);
        }
    }
    if s.depth > 12 {
        cx.labels.push("more than 12 levels deep");
    }
    if s.nodes > 100 {
        cx.labels.push("more than 100 expressions");
    }
}

// ------------------------------------------------------------------------------------ C01, C02

const STMT_LABELS: &[&str] = &["module", "port module", "effect module", "import", "type alias", "type", "port signature", "port definition", "function", "infix", "comment"];

pub fn c01(cx: &mut Ctx) -> Result<(), Fail> {
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.module()
    };
    let s = shape(&stmts);
    for (i, l) in STMT_LABELS.iter().enumerate() {
        if s.stmts & (1 << i) != 0 {
            cx.labels.push(l);
        }
    }
    label_kinds(cx, &s, ALL_KINDS);
    agree(cx, "a module did not parse to its AST", &stmts)?;
    cx.nontrivial = s.stmts.count_ones() >= 3 && s.nodes + s.types >= 8;
    Ok(())
}

const ALL_KINDS: &[(usize, &str)] = &[
    (VAR, "variable"),
    (QUAL, "qualified name"),
    (ACCESS, "field access"),
    (ACCESSFN, "accessor function"),
    (CHR, "character"),
    (STR, "string"),
    (INT, "integer"),
    (FLOAT, "float"),
    (OPVAR, "operator as a value"),
    (UNIT, "unit"),
    (LIST, "list"),
    (TUPLE, "tuple"),
    (RECORD, "record"),
    (UPDATE, "record update"),
    (IF, "if"),
    (LET, "let"),
    (CASE, "case"),
    (LAMBDA, "lambda"),
    (APP, "application"),
    (BINOP, "operator expression"),
];

/// Moves every line's indentation through a strictly increasing function that keeps 0.
fn reindent(text: &str, l: &lex::Lexed, src: &mut Src) -> String {
    let mut inside = vec![];
    for (t, a, b) in &l.toks {
        match t {
            lex::Tok::Str(_) | lex::Tok::Chr(_) | lex::Tok::BlockComment(_) => inside.push((*a, *b)),
            _ => {}
        }
    }
    let step = src.range(1, 4);
    let wobble = src.chance(500);
    let mut map = vec![0usize];
    let mut out = String::new();
    let mut at = 0;
    for line in text.split('\n') {
        if at > 0 {
            out.push('\n');
        }
        let protected = inside.iter().any(|(a, b)| *a < at && at <= *b);
        let n = line.bytes().take_while(|b| *b == b' ').count();
        if protected {
            out.push_str(line);
        } else {
            while map.len() <= n {
                let last = *map.last().unwrap();
                let add = if wobble { src.range(1, step) } else { step };
                map.push(last + add);
            }
            out.push_str(&" ".repeat(map[n]));
            out.push_str(&line[n..]);
        }
        at += line.len() + 1;
    }
    out
}

pub fn c02(cx: &mut Ctx) -> Result<(), Fail> {
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        if g.src.chance(500) {
            g.module()
        } else {
            around(&mut g, &[LIST, TUPLE, RECORD, UPDATE, IF, LET, CASE, LAMBDA, APP, BINOP])
        }
    };
    let plain = print_canonical(&stmts);
    let a = parse(&plain);
    if !a.accepted() {
        return fail("a module in a plain layout was rejected", &plain, &dump_of(&stmts), &a.show());
    }
    cx.text.push_str(&plain);
    let k = cx.src.range(1, 2);
    for _ in 0..k {
        let st = Style::draw(cx.src);
        let p = print_module(&stmts, cx.src, st, &ints(cx.d));
        let b = parse(&p.text);
        cx.text.push_str("\n=====\n");
        cx.text.push_str(&p.text);
        if !a.same(&b) {
            return fail("two layouts of one module have different ASTs", &p.text, &a.show(), &b.show());
        }
        if p.newlines > 0 {
            cx.labels.push("line breaks inside a declaration");
        }
        if p.comments > 0 {
            cx.labels.push("comments between tokens");
        }
        if p.parens > 0 {
            cx.labels.push("redundant brackets");
        }
        if p.blanks > 0 {
            cx.labels.push("blank lines inside a declaration");
        }
        if p.max_indent > 20 {
            cx.labels.push("indentation over 20");
        }
        let l = lex::lex(&p.text);
        if !l.ambiguous && l.unterminated.is_none() && cx.src.chance(500) {
            let t = reindent(&p.text, &l, cx.src);
            if t != p.text {
                cx.labels.push("re-indented");
            }
            let b = parse(&t);
            if !a.same(&b) {
                return fail("re-indenting a module consistently changed its AST", &t, &a.show(), &b.show());
            }
        }
        if p.newlines >= 2 && p.text != plain {
            cx.nontrivial = true;
        }
    }
    // the end of the file
    let t = plain.trim_end_matches('\n').to_string() + *cx.src.pick(&["", "\n", "\n\n\n", "\n  \n", "\n   ", "\n\n-- end", "\n-- end\n", "\n{- end -}"]);
    let commented = t.contains("end") && t.len() > plain.len();
    if !commented {
        let b = parse(&t);
        if !a.same(&b) {
            return fail("white space at the end of a file changed its AST", &t, &a.show(), &b.show());
        }
    } else if !parse(&t).accepted() {
        return fail("a comment at the end of a file made it unreadable", &t, "accepted", &parse(&t).show());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C03

/// Breaks the rule of one line break; the result must not be read as the same program.
fn break_rule(cx: &mut Ctx, p: &Printed, same: &str, only: Option<&[&str]>) -> Result<bool, Fail> {
    let c: Vec<&Slot> = p
        .slots
        .iter()
        .filter(|s| only.map(|o| o.contains(&s.what)).unwrap_or(true))
        .filter(|s| match s.rule {
            Rule::Gt | Rule::Eq => true,
            Rule::Gte => s.ind > 0,
        })
        .collect();
    if c.is_empty() {
        return Ok(false);
    }
    let s = (*cx.src.pick(&c)).clone();
    let n = match s.rule {
        Rule::Gt => s.ind - cx.src.range(0, s.ind.min(3)),
        Rule::Gte => s.ind - 1 - cx.src.range(0, (s.ind - 1).min(3)),
        Rule::Eq => {
            let d = cx.src.range(1, 5);
            if cx.src.chance(400) && s.ind >= d {
                s.ind - d
            } else {
                s.ind + d
            }
        }
    };
    let mut t = p.text.clone();
    t.replace_range(s.start..s.start + s.len, &" ".repeat(n));
    cx.text.push_str(&format!("\n===== {} at {} ({:?} {})\n", s.what, n, s.rule, s.ind));
    cx.text.push_str(&t);
    cx.labels.push(s.what);
    cx.labels.push(match s.rule {
        Rule::Gt => "must be deeper",
        Rule::Gte => "must be as deep",
        Rule::Eq => "must line up",
    });
    match parse(&t) {
        Out::Ast { ref rest, ref dump } if rest.is_empty() && dump == same => fail(
            &format!("a line with the wrong indentation ({} where the rule is {:?} {}, at: {}) is read as if it had the right one", n, s.rule, s.ind, s.what),
            &t,
            "rejected, or a different AST",
            dump,
        ),
        _ => Ok(true),
    }
}

pub fn c03(cx: &mut Ctx) -> Result<(), Fail> {
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.boost(&[LET, CASE], 3);
        match g.src.below(4) {
            0 => vec![g.statement()],
            1 => vec![g.header(), g.import()],
            2 => {
                let t = g.type_();
                let f = g.function(true, 0);
                let f = Function { signature: f.signature.map(|s| FunctionSignature { name: s.name, type_: t }), ..f };
                vec![Statement::Function(f)]
            }
            _ => around(&mut g, &[LIST, TUPLE, RECORD, UPDATE, IF, LET, CASE, LAMBDA, APP, BINOP]),
        }
    };
    let mut st = Style::draw(cx.src);
    st.newline = st.newline.max(250);
    let p = print_module(&stmts, cx.src, st, &ints(cx.d));
    let same = dump_of(&stmts);
    let k = cx.src.range(1, 4);
    for _ in 0..k {
        if break_rule(cx, &p, &same, None)? {
            cx.nontrivial = true;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------- C04, C05, C06

fn comments_of(stmts: &[Statement]) -> Vec<String> {
    stmts
        .iter()
        .filter_map(|s| match s {
            Statement::Comment(t) => Some(t.clone()),
            _ => None,
        })
        .collect()
}

/// That an accepted text is represented by its AST, nothing missing, added or moved.
fn faithful(text: &str, dump: &str) -> Result<Option<Vec<Statement>>, Fail> {
    let l = lex::lex(text);
    if l.ambiguous {
        return Ok(None);
    }
    if l.unterminated.is_some() {
        return fail("a text with an unterminated literal or comment was accepted", text, "rejected", dump);
    }
    let stmts = match from_debug(dump) {
        Ok(s) => s,
        Err(e) => return fail(&format!("the AST cannot be read: {}", e), text, "an AST", dump),
    };
    let again = print_canonical(&stmts);
    let l2 = lex::lex(&again);
    if l2.ambiguous {
        return Ok(None);
    }
    let (a, b) = (lex::content(&l), lex::content(&l2));
    if a != b {
        let i = a.iter().zip(b.iter()).take_while(|x| x.0 == x.1).count();
        return fail(
            "the AST of an accepted text does not have its content",
            text,
            &format!("from token {}: {:?}", i, &a[i..a.len().min(i + 6)]),
            &format!("{:?} in {}", &b[i.min(b.len())..b.len().min(i + 6)], dump),
        );
    }
    // comments
    let cs = comments_of(&stmts);
    // a line comment may stand between the tokens of a declaration, where it means nothing; a block
    // comment may not. `at`: how many of the comments of the AST may have been seen so far
    let mut at = vec![0];
    for (t, _, _) in &l.toks {
        match t {
            lex::Tok::LineComment(c) => {
                let on: Vec<usize> = at.iter().filter(|i| cs.get(**i) == Some(c)).map(|i| i + 1).collect();
                at.extend(on);
                at.sort_unstable();
                at.dedup();
            }
            lex::Tok::BlockComment(c) => {
                at = at.iter().filter(|i| cs.get(**i) == Some(c)).map(|i| i + 1).collect();
                if at.is_empty() {
                    return fail("a block comment is missing from the AST", text, c, dump);
                }
            }
            _ => {}
        }
    }
    if !at.contains(&cs.len()) {
        return fail("the AST has a comment the text does not have", text, "", dump);
    }
    // and the AST, written out plainly, means itself
    match parse(&again) {
        Out::Ast { rest: ref r, dump: ref d } if r.is_empty() && d == dump => {}
        o => return fail("an AST written out is not read back as the same AST", &again, dump, &o.show()),
    }
    Ok(Some(stmts))
}

fn small_module(g: &mut Gen) -> Vec<Statement> {
    g.fuel = g.fuel.min(40);
    g.max_depth = 8;
    match g.src.below(4) {
        0 => g.module(),
        1 => vec![g.statement()],
        _ => around(g, &[LIST, TUPLE, RECORD, UPDATE, IF, LET, CASE, LAMBDA, APP, BINOP]),
    }
}

fn mutant(cx: &mut Ctx, most: usize) -> (String, String) {
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        small_module(&mut g)
    };
    let base = if cx.src.chance(500) {
        print_canonical(&stmts)
    } else {
        let st = Style::draw(cx.src);
        print_module(&stmts, cx.src, st, &[]).text
    };
    let mut t = base.clone();
    let n = cx.src.range(1, most);
    for _ in 0..n {
        t = mutate::mutate(&t, cx.src, cx.d);
    }
    (base, t)
}

pub fn c04(cx: &mut Ctx) -> Result<(), Fail> {
    let (base, t) = mutant(cx, 2);
    if let Out::Ast { rest, dump } = parse(&t) {
        if !rest.is_empty() {
            return fail("a text was accepted in part", &t, "all of it, or nothing", &rest);
        }
        cx.labels.push("accepted");
        if faithful(&t, &dump)?.is_some() {
            if t != base {
                cx.labels.push("accepted after an edit");
                cx.nontrivial = true;
            }
        } else {
            cx.labels.push("skipped: -- next to an operator");
        }
    } else {
        cx.labels.push("rejected");
    }
    cx.text.push_str(&t);
    Ok(())
}

/// Damage that no text can be read with.
fn damage(base: &str, src: &mut Src) -> String {
    let l = lex::lex(base);
    let mut t = base.to_string();
    let sel = |f: &dyn Fn(&lex::Tok) -> bool| -> Vec<(usize, usize)> { l.toks.iter().filter(|t| f(&t.0)).map(|t| (t.1, t.2)).collect() };
    let any: Vec<(usize, usize)> = sel(&|t| !matches!(t, lex::Tok::LineComment(_) | lex::Tok::BlockComment(_)));
    let brackets = sel(&|t| matches!(t, lex::Tok::Sym(c) if "()[]{}".contains(*c)));
    let words = sel(&|t| matches!(t, lex::Tok::Word(w) if ["if", "then", "else", "case", "of", "let", "in"].contains(&w.as_str())));
    let commas = sel(&|t| matches!(t, lex::Tok::Sym(',')));
    let lits = sel(&|t| matches!(t, lex::Tok::Str(_) | lex::Tok::Chr(_)));
    let blocks = sel(&|t| matches!(t, lex::Tok::BlockComment(_)));
    let pick = |src: &mut Src, v: &Vec<(usize, usize)>| -> Option<(usize, usize)> {
        if v.is_empty() {
            None
        } else {
            let i = src.below(v.len());
            Some(v[i])
        }
    };
    match src.below(10) {
        0 => {
            if let Some((a, b)) = pick(src, &brackets) {
                t.replace_range(a..b, if src.chance(500) { "" } else { " " });
            }
        }
        1 => {
            if let Some((a, b)) = pick(src, &brackets) {
                let x = *src.pick(&["(", ")", "[", "]", "{", "}"]);
                t.replace_range(a..b, x);
            }
        }
        2 => {
            if let Some((a, b)) = pick(src, &any) {
                let x = *src.pick(&["(", ")", "[", "]", "{", "}"]);
                let p = if src.chance(500) { a } else { b };
                t.insert_str(p, x);
            }
        }
        3 => {
            if let Some((a, b)) = pick(src, &words) {
                t.replace_range(a..b, *src.pick(&["", " ", "x"]));
            }
        }
        4 => {
            if let Some((a, _)) = pick(src, &any) {
                t.insert_str(a, *src.pick(&["if ", "then ", "else ", "case ", "of ", "let ", "in "]));
            }
        }
        5 => {
            let which = if src.chance(500) { &commas } else { &brackets };
            if let Some((a, b)) = pick(src, which) {
                let p = if src.chance(500) { a } else { b };
                t.insert_str(p, *src.pick(&[",", ", ", " ,", " , "]));
            }
        }
        6 => {
            if let Some((a, b)) = pick(src, &any) {
                let p = if src.chance(500) { a } else { b };
                t.insert_str(p, *src.pick(&["`", ";", "é", "§", "\u{0}", "\u{a0}", "\u{feff}", "\u{c}", "\u{b}", "λ", "，", "（", "１", "−", "\u{2028}"]));
            }
        }
        7 => {
            if let Some((a, b)) = pick(src, &lits) {
                if src.chance(500) {
                    t.replace_range(b - 1..b, "");
                } else {
                    t.replace_range(a..a + 1, "");
                }
            }
        }
        8 => {
            if let Some((_, b)) = pick(src, &blocks) {
                t.replace_range(b - 2..b, "");
            } else {
                let mut p = src.below(t.len() + 1);
                while !t.is_char_boundary(p) {
                    p -= 1;
                }
                t.truncate(p);
            }
        }
        _ => {
            // text after the end
            let end = t.trim_end().len();
            t.truncate(end);
            t.push_str(*src.pick(&["\n)", "\n]", "\n}", ")", "\n  )", "\n,", ",", "\n(", "\n`", " \"", "\n'", "\n{-", "\n\"\"\"", "\n  then", "\nin"]));
            t.push('\n');
        }
    }
    t
}

pub fn c05(cx: &mut Ctx) -> Result<(), Fail> {
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        if g.src.chance(100) {
            g.fuel = g.fuel.min(150);
            g.max_depth = 8;
            g.module()
        } else {
            small_module(&mut g)
        }
    };
    let base = if cx.src.chance(300) {
        let st = Style::draw(cx.src);
        print_module(&stmts, cx.src, st, &[]).text
    } else {
        print_canonical(&stmts)
    };
    let k = cx.src.range(1, 3);
    for _ in 0..k {
        let mut t = damage(&base, cx.src);
        if cx.src.chance(150) {
            t = mutate::mutate(&t, cx.src, cx.d);
        }
        let l = lex::lex(&t);
        cx.text.push_str("\n=====\n");
        cx.text.push_str(&t);
        if l.ambiguous {
            cx.labels.push("skipped: -- next to an operator");
            continue;
        }
        if let Some(why) = lex::malformed(&l) {
            cx.nontrivial = true;
            cx.labels.push(if why.starts_with("unterm") {
                "unterminated literal or comment"
            } else if why.starts_with("stray") {
                "stray character"
            } else if why.starts_with("unmatched") || why.starts_with("unclosed") {
                "unbalanced brackets"
            } else if why.starts_with("a comma") {
                "comma without neighbour"
            } else {
                "keyword without its partner"
            });
            match parse(&t) {
                Out::Rejected(_) => {}
                o => return fail(&format!("a malformed text was accepted: {}", why), &t, "rejected", &o.show()),
            }
        } else {
            cx.labels.push("not malformed after all");
        }
    }
    Ok(())
}

thread_local! {
    /// Texts this thread has parsed before, some of them long ago, and what came of them.
    static BEFORE: std::cell::RefCell<Vec<(String, Out)>> = std::cell::RefCell::new(vec![]);
}

/// What was parsed since must not matter. A failure depends on all that was parsed in this process;
/// running the case alone need not show it again.
fn again(cx: &mut Ctx, t: &str, a: Out) -> Result<(), Fail> {
    BEFORE.with(|b| {
        let mut b = b.borrow_mut();
        if b.len() > 20 && cx.src.chance(300) {
            let (t, old) = &b[cx.src.below(b.len())];
            let now = parse(t);
            cx.labels.push("a text from long before");
            if !old.same(&now) {
                return fail("a text gave another result when it was parsed again, other texts later", t, &old.show(), &now.show());
            }
        }
        if t.len() < 3000 && b.len() < 600 {
            b.push((t.to_string(), a));
        } else if t.len() < 3000 && cx.src.chance(30) {
            let i = cx.src.below(b.len());
            b[i] = (t.to_string(), a);
        }
        Ok(())
    })
}

pub fn c06(cx: &mut Ctx) -> Result<(), Fail> {
    let t = match cx.src.below(9) {
        8 => mutant(cx, 1).0,
        0 => mutate::soup(cx.src, cx.d),
        1 => {
            let n = cx.src.range(0, 200);
            let ascii = cx.src.chance(500);
            (0..n)
                .map(|_| if ascii { cx.src.below(128) as u8 as char } else { std::char::from_u32(cx.src.draw(0x11_0000) as u32).unwrap_or('\u{fffd}') })
                .collect()
        }
        2 => {
            // deep, mostly unclosed nesting
            let n = cx.src.range(1, 150);
            let one = cx.src.chance(500);
            let opens = ["(", "[", "{ a = ", "{ a | b = ", "\\a -> ", "if ", "f (", "[ 1, ", "( 1, ", "case a of\n B -> ", "let\n a =\n ", "a + ", "if a then "];
            let k = cx.src.below(opens.len());
            let mut s = if cx.src.chance(700) { "x =\n ".to_string() } else { "x : ".to_string() };
            let mut closes = String::new();
            for _ in 0..n {
                let i = if one { k } else { cx.src.below(opens.len()) };
                s.push_str(opens[i]);
                closes.insert_str(0, ["", ")", "]", "}", " ", "in a "][cx.src.below(6)]);
            }
            s.push('a');
            if cx.src.chance(500) {
                s.push_str(&closes);
            }
            s
        }
        3 => {
            // one long token or run
            let unit = *cx.src.pick(&["a", "A", "A.", "a.", "9", "-", "+", " ", "\n", "\"", "'", "\\", "(", ",", "_", "{-", "-}", "--", "é", "x = 1\n", ".", "1.", "\"\"\"", "\\x"]);
            let n = cx.src.range(1, if unit.contains('(') { 150 } else { 3000 });
            let head = *cx.src.pick(&["", "x = ", "x : ", "import ", "module ", "type A = ", "x = \"", "x = '", "{-", "--", "infixl "]);
            head.to_string() + &unit.repeat(n)
        }
        4 | 5 => {
            let (_, t) = mutant(cx, 5);
            t
        }
        6 => {
            // a program, cut anywhere
            let (_, t) = mutant(cx, 1);
            let mut p = cx.src.below(t.len() + 1);
            while !t.is_char_boundary(p) {
                p -= 1;
            }
            t[..p].to_string()
        }
        _ => {
            let (a, _) = mutant(cx, 1);
            a.replace('\n', *cx.src.pick(&["\r\n", "\r", "\n\t", "\t\n", "\n\u{a0}", "\u{2028}"]))
        }
    };
    cx.text.push_str(&t);
    let a = parse(&t);
    // in between, something else: a parse leaves nothing behind
    if cx.src.chance(300) {
        let other = mutate::soup(cx.src, cx.d);
        parse(&other);
    }
    let b = parse(&t);
    if !a.same(&b) {
        return fail("the same text gave two different results", &t, &a.show(), &b.show());
    }
    // in a thread where nothing was parsed before
    if t.len() < 20_000 && cx.src.chance(30) {
        let text = t.clone();
        let b = std::thread::Builder::new().stack_size(512 << 20).spawn(move || parse(&text)).expect("a thread").join();
        cx.labels.push("in a new thread");
        match b {
            Ok(b) if a.same(&b) => {}
            Ok(b) => return fail("the same text gave another result in a thread where nothing was parsed before", &t, &b.show(), &a.show()),
            Err(_) => return fail("a text panics in a thread where nothing was parsed before", &t, &a.show(), "a panic"),
        }
    }
    if t.len() < 20_000 && cx.src.chance(3) {
        crate::cli::in_new_process(cx, &t, &a)?;
    }
    // after a text that differs from it by a character
    if t.len() < 3000 && cx.src.chance(250) {
        let places: Vec<usize> = t.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).map(|(p, _)| p).collect();
        if !places.is_empty() {
            let mut v = t.clone().into_bytes();
            let p = places[cx.src.below(places.len())];
            v[p] = match v[p] {
                b'a' => b'b',
                b'A' => b'B',
                b'1' => b'2',
                c if c.is_ascii_lowercase() => b'a',
                c if c.is_ascii_uppercase() => b'A',
                _ => b'1',
            };
            let near = String::from_utf8(v).unwrap();
            // both from the same place in memory
            let mut buffer = near.clone();
            let there = parse(&buffer);
            buffer.clear();
            buffer.push_str(&t);
            let b = parse(&buffer);
            again(cx, &near, there)?;
            cx.labels.push("after one like it");
            if !a.same(&b) {
                return fail("a text gave another result after one that differs from it by a character", &t, &a.show(), &b.show());
            }
        }
    }
    match &a {
        Out::Ast { rest, dump } => {
            cx.labels.push("accepted");
            if !rest.is_empty() {
                return fail("a text was accepted in part", &t, "all of it, or nothing", rest);
            }
            if from_debug(dump).is_err() {
                return fail("an AST that cannot be read", &t, "an AST", dump);
            }
        }
        Out::Rejected(_) => cx.labels.push("rejected"),
    }
    if t.trim().len() > 3 {
        cx.nontrivial = true;
    }
    if !t.is_ascii() {
        cx.labels.push("not ASCII");
    }
    if t.len() > 500 {
        cx.labels.push("over 500 bytes");
    }
    again(cx, &t, a)
}

// --------------------------------------------------------------------- constructs: expressions

fn reject_in(cx: &mut Ctx, what: &str, body: &str) -> Result<(), Fail> {
    // the malformed expression in some place where an expression belongs
    let t = match cx.src.below(9) {
        0..=2 => format!("x = {}\n", body),
        3 => format!("x =\n    {}\n", body),
        4 => format!("x = f ({})\n", body),
        5 => format!("x = [ 1, {} ]\n", body),
        6 => format!("x = {{ a = {} }}\n", body),
        7 => format!("x =\n  let\n    a = {}\n  in\n    a\n", body),
        _ => format!("x a =\n  case a of\n    b -> {}\n    c -> 1\n", body),
    };
    cx.text.push_str("\n=====\n");
    cx.text.push_str(&t);
    cx.labels.push("malformed");
    expect_rejected(&format!("{} was accepted", what), &t)
}

pub fn c07(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (l, r, op) = {
            let mut g = Gen::new(cx.src, cx.d);
            let l = flat_expr(&mut g);
            let r = flat_expr(&mut g);
            (l, r, g.op())
        };
        let (l, r) = (show_term(cx.src, &l), show_term(cx.src, &r));
        let res = *cx.src.pick(&["=", ".", "..", "->", "|", ":"]);
        let (what, t) = match cx.src.below(9) {
            0 | 1 => ("a reserved operator between two operands", format!("x = ({} {} {})\n", l, res, r)),
            2 => ("a reserved operator as a value", format!("x = f ({})\n", res)),
            3 => ("a reserved operator as a function name", format!("({}) a b = a\n", res)),
            4 => ("a reserved operator in a fixity declaration", format!("infixl 5 {}\n", res)),
            5 => ("a reserved operator in an exposing list", format!("import A exposing (({}))\n", if res == ".." { "." } else { res })),
            6 => ("an operator with no left operand", format!("x = ({} {})\n", op, r)),
            7 => ("an operator with no right operand", format!("x = ({} {} )\n", l, op)),
            _ => ("two operators in a row", format!("x = ({} {} {} {})\n", l, op, op, r)),
        };
        cx.text.push_str(&t);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected(&format!("{} was accepted", what), &t);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.boost(&[BINOP, OPVAR], 4);
        match g.src.below(10) {
            0 => {
                // operators in the other places they are named
                let mut v = vec![g.infix()];
                let n = g.op();
                let mut f = g.function(true, 0);
                f.signature.as_mut().unwrap().name = n.clone();
                f.definition.name = n;
                v.push(Statement::Function(f));
                v
            }
            1 => {
                // long chains of one or two operators
                let n = g.size(3, 10, 120);
                let (o1, o2) = (g.op(), g.op());
                let mut e = g.leaf();
                for _ in 0..n {
                    let l = g.leaf();
                    let op = if g.src.chance(500) { o1.clone() } else { o2.clone() };
                    e = Expr::BinOp(Box::new(Expr::Variable(vec![op])), Box::new(l), Box::new(e));
                }
                vec![g.def(e)]
            }
            _ => around(&mut g, &[BINOP]),
        }
    };
    let s = shape(&stmts);
    label_kinds(cx, &s, &[(BINOP, "operator expression"), (OPVAR, "operator as a value"), (LAMBDA, "lambda"), (IF, "if"), (APP, "application")]);
    agree(cx, "an operator expression did not parse to its AST", &stmts)?;
    cx.nontrivial = s.kinds & (1 << BINOP) != 0 && s.nodes >= 5;
    Ok(())
}

pub fn c08(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(150) {
        let (lo, up, lo2) = {
            let mut g = Gen::new(cx.src, cx.d);
            (g.lo(), g.up(), g.lo())
        };
        let b = match cx.src.below(8) {
            0 => format!("{}.{}", lo, up),
            1 => format!("{}..{}", lo, lo2),
            2 => format!("{}. {}", lo, lo2),
            3 => format!(".{}", up),
            4 => format!("{}.", up),
            5 => format!("{}.{}.{}", lo, lo2, up),
            6 => format!("{}.{}.{}", up, lo, up),
            _ => format!("{}.{}.", lo, lo2),
        };
        cx.nontrivial = true;
        return reject_in(cx, "a malformed field access", &b);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.boost(&[APP, ACCESS, ACCESSFN, QUAL], 4);
        if g.src.chance(100) {
            let n = g.size(3, 10, 150);
            let mut f = var(&g.lo());
            for _ in 0..n {
                let a = g.leaf();
                f = Expr::Application(Box::new(f), Box::new(a));
            }
            vec![g.def(f)]
        } else {
            around(&mut g, &[APP, APP, APP, ACCESS, ACCESSFN])
        }
    };
    let s = shape(&stmts);
    label_kinds(cx, &s, &[(APP, "application"), (ACCESS, "field access"), (ACCESSFN, "accessor function"), (QUAL, "qualified name")]);
    agree(cx, "an application did not parse to its AST", &stmts)?;
    cx.nontrivial = s.kinds & (1 << APP | 1 << ACCESS) != 0 && s.nodes >= 4;
    Ok(())
}

pub fn c09(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (d1, d2, s, lo) = {
            let mut g = Gen::new(cx.src, cx.d);
            (g.digits(), g.digits(), g.string(), g.lo())
        };
        let plain: String = s.chars().filter(|c| !"\\\"\n".contains(*c)).collect();
        let c = plain.chars().next().unwrap_or('a');
        let (what, b) = match cx.src.below(14) {
            0 => ("a number ending in a point", format!("{}.", d1)),
            1 => ("a number beginning with a point", format!(".{}", d1)),
            2 => ("a number with two points in a row", format!("{}..{}", d1, d2)),
            3 => ("a number with two points", format!("{}.{}.{}", d1, d2, d1)),
            4 => ("a number with letters", format!("{}{}", d1, lo)),
            5 => ("a number with letters after the point", format!("{}.{}", d1, lo)),
            6 => ("a number with an underscore", format!("{}_{}", d1, d2)),
            7 => ("a number with two signs", format!("+-{}", d1)),
            8 => ("an unterminated string", format!("\"{}", plain)),
            9 => ("a string over two lines", format!("\"{}\n{}\"", plain, plain)),
            10 => ("a character literal of two characters", format!("'{}z'", if "\\'".contains(c) { 'a' } else { c })),
            11 => ("an empty character literal", "''".to_string()),
            12 => ("an unterminated character literal", format!("'{}", if c == '\\' { 'a' } else { c })),
            _ => ("a malformed hexadecimal character", format!("'\\x{}'", cx.src.pick(&["4", "", "g1", "1g", "041", "+1", " 1", "１1"]))),
        };
        let t = match cx.src.below(3) {
            0 => format!("x = {}\n", b),
            1 => format!("x = ({})\n", b),
            _ => format!("x = [ a, {} ]\n", b),
        };
        cx.text.push_str(&t);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected(&format!("{} was accepted", what), &t);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.boost(&[CHR, STR, INT, FLOAT], 6);
        let k = *g.src.pick(&[CHR, STR, INT, FLOAT]);
        let e = match k {
            CHR => Expr::Character(g.character()),
            STR => Expr::String(g.string()),
            INT => Expr::Integer(g.int()),
            _ => Expr::Float(g.float()),
        };
        g.fuel = g.fuel.min(8);
        let e = if g.src.chance(500) {
            let n = g.src.range(1, 3);
            g.nest(&[LIST, TUPLE, RECORD, UPDATE, IF, LET, CASE, LAMBDA, APP, BINOP], n, e)
        } else {
            e
        };
        if g.src.chance(100) {
            // as patterns
            let p = g.leaf();
            let body = g.leaf();
            vec![g.def(Expr::Case(Box::new(e), vec![(p, body)]))]
        } else {
            let mut v = vec![g.def(e)];
            if g.src.chance(300) {
                let e = g.leaf();
                v.push(g.def(e));
            }
            v
        }
    };
    let s = shape(&stmts);
    label_kinds(cx, &s, &[(CHR, "character"), (STR, "string"), (INT, "integer"), (FLOAT, "float")]);
    agree(cx, "a literal did not parse to its AST", &stmts)?;
    cx.nontrivial = s.kinds & (1 << CHR | 1 << STR | 1 << INT | 1 << FLOAT) != 0;
    if cx.text.contains("\"\"\"") {
        cx.labels.push("triple quoted");
    }
    if cx.text.contains("'\\x") {
        cx.labels.push("hexadecimal character");
    }
    if !cx.text.is_ascii() {
        cx.labels.push("not ASCII");
    }
    Ok(())
}

/// The lower case and upper case names of an AST, by the place they are in.
pub fn bad_name(stmts: &[Statement]) -> Option<String> {
    let lo = |n: &str| -> Option<String> { if n == "_" || is_lo(n) { None } else { Some(n.to_string()) } };
    let opn = |n: &str| !n.is_empty() && !RESERVED_OPS.contains(&n) && n.chars().all(|c| OP_CHARS.contains(&c) || c == '\\');
    let def = |n: &str| -> Option<String> { if opn(n) { None } else { lo(n) } };
    let up = |n: &str| -> Option<String> { if is_up(n) { None } else { Some(n.to_string()) } };
    let mut bad: Option<String> = None;
    let mut note = |b: Option<String>| {
        if bad.is_none() {
            bad = b;
        }
    };
    fn ty(t: &Type, note: &mut dyn FnMut(Option<String>)) {
        each_type(t, &mut |t| match t {
            Type::TypeVariable(n) => note(if is_lo(n) { None } else { Some(n.clone()) }),
            Type::TypeConstructor(n, _) => n.iter().for_each(|n| note(if is_up(n) { None } else { Some(n.clone()) })),
            Type::TypeRecord(f) | Type::TypeRecordConstructor(_, f) => f.iter().for_each(|f| note(if is_lo(&f.0) || f.0 == "_" { None } else { Some(f.0.clone()) })),
            _ => {}
        });
    }
    fn fun(f: &Function, def: &dyn Fn(&str) -> Option<String>, note: &mut dyn FnMut(Option<String>)) {
        if let Some(s) = &f.signature {
            note(def(&s.name));
            ty(&s.type_, note);
        }
        note(def(&f.definition.name));
    }
    let mut es: Vec<&Expr> = vec![];
    fn export(e: &ExportSet, def: &dyn Fn(&str) -> Option<String>, inner: bool, note: &mut dyn FnMut(Option<String>)) {
        match e {
            ExportSet::FunctionExport(n) => note(if inner {
                if is_up(n) {
                    None
                } else {
                    Some(n.clone())
                }
            } else {
                def(n)
            }),
            ExportSet::TypeExport(n, s) => {
                note(if is_up(n) { None } else { Some(n.clone()) });
                if let Some(s) = s {
                    export(s, def, true, note);
                }
            }
            ExportSet::SubsetExport(l) => l.iter().for_each(|e| export(e, def, inner, note)),
            ExportSet::AllExport => {}
        }
    }
    for s in stmts {
        match s {
            Statement::ModuleDeclaration(n, e) | Statement::PortModuleDeclaration(n, e) => {
                n.iter().for_each(|n| note(up(n)));
                export(e, &def, false, &mut note);
            }
            Statement::EffectModuleDeclaration(n, w, e) => {
                n.iter().for_each(|n| note(up(n)));
                w.iter().for_each(|x| {
                    note(lo(&x.0));
                    note(up(&x.1))
                });
                export(e, &def, false, &mut note);
            }
            Statement::ImportStatement(n, a, e) => {
                n.iter().for_each(|n| note(up(n)));
                a.iter().for_each(|n| note(up(n)));
                e.iter().for_each(|e| export(e, &def, false, &mut note));
            }
            Statement::TypeAliasDeclaration(a, b) => {
                ty(a, &mut note);
                ty(b, &mut note);
            }
            Statement::TypeDeclaration(a, l) => {
                ty(a, &mut note);
                l.iter().for_each(|t| ty(t, &mut note));
            }
            Statement::PortTypeDeclaration(n, t) => {
                note(lo(n));
                ty(t, &mut note);
            }
            Statement::PortDeclaration(n, a, e) => {
                note(lo(n));
                a.iter().for_each(|n| note(lo(n)));
                es.push(e);
            }
            Statement::Function(f) => {
                fun(f, &def, &mut note);
                es.extend(f.definition.args.iter());
                es.push(&f.definition.body);
            }
            Statement::InfixDeclaration(_, _, n) => note(def(n)),
            Statement::Comment(_) => {}
        }
    }
    for e in es {
        each_expr(e, 0, &mut |e, _| match e {
            Expr::Variable(n) if n.len() == 1 => {
                let n = &n[0];
                if !(is_up(n) || n == "_" || is_lo(n) || opn(n) || n.chars().all(|c| c == ',') || n == "as") {
                    note(Some(n.clone()));
                }
            }
            Expr::Variable(n) => n.iter().for_each(|n| note(up(n))),
            Expr::Access(_, n) => n.iter().for_each(|n| note(lo(n))),
            Expr::AccessFunction(n) => note(lo(n)),
            Expr::Record(f) => f.iter().for_each(|f| note(lo(&f.0))),
            Expr::RecordUpdate(n, f) => {
                note(lo(n));
                f.iter().for_each(|f| note(lo(&f.0)))
            }
            Expr::Application(f, a) => {
                // `as` is an operator of patterns, never an operand
                for x in &[f, a] {
                    if ***x == var("as") {
                        note(Some("as".to_string()));
                    }
                }
            }
            Expr::Let(es, _) => es.iter().for_each(|x| {
                if let LetEntry::LetFunction(f) = x {
                    fun(f, &def, &mut note);
                }
            }),
            _ => {}
        });
    }
    bad
}

pub fn c10(cx: &mut Ctx) -> Result<(), Fail> {
    match cx.src.below(3) {
        0 => {
            // a name in every place a name can be
            let (a, b, up) = {
                let mut g = Gen::new(cx.src, cx.d);
                (g.lo(), g.lo(), g.up())
            };
            let v = |n: &str| Expr::Variable(vec![n.to_string()]);
            let tv = |n: &str| Type::TypeVariable(n.to_string());
            let f = |name: &str, args: Vec<Expr>, body: Expr| {
                Statement::Function(Function { signature: None, definition: FunctionDefinition { name: name.to_string(), args, body } })
            };
            let n = a.clone();
            let tc = |l: Vec<Type>| Type::TypeConstructor(vec!["T".to_string()], l);
            let (what, st) = match cx.src.below(26) {
                0 => ("function", f(&n, vec![], v(&b))),
                1 => ("argument", f(&b, vec![v(&n), v(&b)], v("x"))),
                2 => ("variable", f("x", vec![], v(&n))),
                3 => ("applied variable", f("x", vec![], Expr::Application(Box::new(v(&n)), Box::new(v(&b))))),
                4 => ("argument expression", f("x", vec![], Expr::Application(Box::new(v(&b)), Box::new(v(&n))))),
                5 => ("let binding", f("x", vec![], Expr::Let(vec![LetEntry::LetBinding(v(&n), v(&b))], Box::new(v("y"))))),
                6 => ("record field", f("x", vec![], Expr::Record(vec![(n.clone(), v("y")), (b.clone(), v("z"))]))),
                7 => ("updated record", f("x", vec![], Expr::RecordUpdate(n.clone(), vec![(b.clone(), v("y"))]))),
                8 => ("updated field", f("x", vec![], Expr::RecordUpdate(b.clone(), vec![(n.clone(), v("y"))]))),
                9 => ("accessed field", f("x", vec![], Expr::Access(Box::new(v(&b)), vec![n.clone()]))),
                10 => ("accessor", f("x", vec![], Expr::AccessFunction(n.clone()))),
                11 => ("lambda argument", f("x", vec![], Expr::Lambda(vec![v(&n)], Box::new(v(&b))))),
                12 => ("case pattern", f("x", vec![], Expr::Case(Box::new(v("y")), vec![(v(&n), v(&b))]))),
                13 => ("type variable", Statement::PortTypeDeclaration("p".to_string(), Type::TypeApplication(Box::new(tv(&n)), Box::new(tv(&b))))),
                14 => ("type field", Statement::PortTypeDeclaration("p".to_string(), Type::TypeRecord(vec![(n.clone(), tv(&b))]))),
                15 => ("type parameter", Statement::TypeDeclaration(tc(vec![tv(&n)]), vec![tc(vec![tv(&n)])])),
                16 => ("port", Statement::PortTypeDeclaration(n.clone(), tc(vec![]))),
                17 => ("port with a body", Statement::PortDeclaration(n.clone(), vec![b.clone()], v("x"))),
                18 => ("exposed value", Statement::ImportStatement(vec![up], None, Some(ExportSet::SubsetExport(vec![ExportSet::FunctionExport(n.clone()), ExportSet::FunctionExport(b.clone())])))),
                19 => ("fixity declaration", Statement::InfixDeclaration(Assoc::L, 5, n.clone())),
                20 => (
                    "effect setting",
                    Statement::EffectModuleDeclaration(vec![up.clone()], vec![(n.clone(), up)], ExportSet::AllExport),
                ),
                21 => (
                    "let function",
                    f(
                        "x",
                        vec![],
                        Expr::Let(
                            vec![LetEntry::LetFunction(Function { signature: None, definition: FunctionDefinition { name: n.clone(), args: vec![v(&b)], body: v("y") } })],
                            Box::new(v("y")),
                        ),
                    ),
                ),
                22 => ("operand", f("x", vec![], Expr::BinOp(Box::new(v("+")), Box::new(v(&n)), Box::new(v(&n))))),
                23 => ("short record field", f("x", vec![Expr::Record(vec![(n.clone(), v(&n)), (b.clone(), v(&b))])], v("y"))),
                24 => (
                    "function with a signature",
                    Statement::Function(Function {
                        signature: Some(FunctionSignature { name: n.clone(), type_: tv(&b) }),
                        definition: FunctionDefinition { name: n.clone(), args: vec![], body: v("y") },
                    }),
                ),
                _ => ("branch of if", f("x", vec![], Expr::If(Box::new(v(&n)), Box::new(v(&n)), Box::new(v(&n))))),
            };
            cx.labels.push(what);
            let reserved = cx.src.chance(400);
            if !reserved {
                let st = [st];
                agree(cx, &format!("a name was not accepted as {}", what), &st)?;
                cx.nontrivial = true;
                if a.len() > 30 {
                    cx.labels.push("name over 30 characters");
                }
                if RESERVED.iter().any(|r| a.starts_with(r)) {
                    cx.labels.push("begins with a reserved word");
                }
                return Ok(());
            }
            // the same with a reserved word in place of the name
            let r = *cx.src.pick(RESERVED);
            let text = print_canonical(&[st]);
            let l = lex::lex(&text);
            let hits: Vec<(usize, usize)> = l.toks.iter().filter(|t| t.0 == lex::Tok::Word(n.clone())).map(|t| (t.1, t.2)).collect();
            if hits.is_empty() {
                return Ok(());
            }
            let (x, y) = *cx.src.pick(&hits);
            let mut t = text.clone();
            t.replace_range(x..y, r);
            cx.text.push_str(&t);
            cx.labels.push("reserved word as a name");
            cx.nontrivial = true;
            match parse(&t) {
                Out::Rejected(_) => Ok(()),
                Out::Ast { rest, dump } => {
                    // `as` between two patterns is an operator, `type alias` and `port module` are
                    // keywords: those are other programs. A reserved word must not come out as a name.
                    match from_debug(&dump) {
                        Ok(s) => match bad_name(&s) {
                            Some(b) => fail(&format!("the reserved word {} was accepted as a name ({})", b, what), &t, "rejected", &dump),
                            None => {
                                if !rest.is_empty() {
                                    return fail("a text was accepted in part", &t, "rejected", &dump);
                                }
                                cx.labels.push("reserved word made another program");
                                Ok(())
                            }
                        },
                        Err(e) => fail(&e, &t, "an AST", &dump),
                    }
                }
            }
        }
        1 => {
            // upper case where lower case belongs and the other way round
            let (lo, up, lo2) = {
                let mut g = Gen::new(cx.src, cx.d);
                (g.lo(), g.up(), g.lo())
            };
            let t = match cx.src.below(21) {
                18 => format!("type {} = {}\n", lo, up),
                19 => format!("type alias {} {} = {}\n", lo, lo2, up),
                20 => format!("type {} {} {} = {}\n", up, lo, up, up),
                0 => format!("{} = {}\n", up, lo),
                1 => format!("{} : Int\n{} = 1\n", up, up),
                2 => format!("module {} exposing (..)\n", lo),
                3 => format!("module {}.{} exposing (..)\n", up, lo),
                4 => format!("import {}\n", lo),
                5 => format!("import {} as {}\n", up, lo),
                6 => format!("import {}.{}\n", up, lo),
                7 => format!("type {} = {}\n", up, lo),
                8 => format!("x = {{ {} = 1 }}\n", up),
                9 => format!("x = {{ {} | {} = 1 }}\n", up, lo),
                10 => format!("x = {{ {} | {} = 1 }}\n", lo, up),
                11 => format!("port {} : Int\n", up),
                12 => format!("x : {{ {} : Int }}\nx = 1\n", up),
                13 => format!("x = {}.{}\n", lo, up),
                14 => format!("x = .{}\n", up),
                15 => format!("infixl 5 {}\n", up),
                16 => format!("effect module {} where {{ {} = {} }} exposing (..)\n", up, lo, lo2),
                _ => format!("effect module {} where {{ {} = {} }} exposing (..)\n", up, up, up),
            };
            cx.text.push_str(&t);
            cx.labels.push("wrong case");
            cx.nontrivial = true;
            expect_rejected("a name of the wrong case was accepted", &t)
        }
        _ => {
            // whatever is accepted has proper names only
            let (_, t) = mutant(cx, 2);
            let t = if cx.src.chance(600) {
                // put a reserved word somewhere
                let l = lex::lex(&t);
                let w: Vec<(usize, usize)> = l.toks.iter().filter(|t| matches!(t.0, lex::Tok::Word(_))).map(|t| (t.1, t.2)).collect();
                if w.is_empty() {
                    t
                } else {
                    let (a, b) = *cx.src.pick(&w);
                    let mut t = t;
                    t.replace_range(a..b, *cx.src.pick(RESERVED));
                    t
                }
            } else {
                t
            };
            cx.text.push_str(&t);
            if let Out::Ast { dump, .. } = parse(&t) {
                cx.labels.push("accepted after an edit");
                cx.nontrivial = true;
                match from_debug(&dump) {
                    Ok(s) => {
                        if let Some(b) = bad_name(&s) {
                            return fail(&format!("{:?} was accepted as a name", b), &t, "rejected", &dump);
                        }
                    }
                    Err(e) => return fail(&e, &t, "an AST", &dump),
                }
            }
            Ok(())
        }
    }
}

pub fn c11(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (a, b, f, r, up) = {
            let mut g = Gen::new(cx.src, cx.d);
            (flat_expr(&mut g), flat_expr(&mut g), g.lo(), g.lo(), g.up())
        };
        let (a, b) = (show_expr(cx.src, &a), show_expr(cx.src, &b));
        let k = cx.src.below(36);
        let body = match k {
            30 => format!("{{ {} | }}", r),
            31 => format!("{{{}|}}", r),
            32 => format!("{{ {} | {} = {} {} = {} }}", r, f, a, r, b),
            33 => format!("{{ ({}) | {} = {} }}", r, f, a),
            34 => format!("{{ {} = {} | {} = {} }}", f, a, r, b),
            0 => format!("[ {}, {}, ]", a, b),
            1 => format!("[ , {} ]", a),
            2 => format!("[ {},, {} ]", a, b),
            3 => format!("[ {}", a),
            4 => format!("{} ]", a),
            5 => format!("[ {}, {} )", a, b),
            6 => format!("( {}, {}, )", a, b),
            7 => format!("(, {} )", a),
            8 => format!("( {},, {} )", a, b),
            9 => format!("( {}, {} ]", a, b),
            10 => format!("{{ {} = {}, }}", f, a),
            11 => format!("{{ , {} = {} }}", f, a),
            12 => format!("{{ {} = {},, {} = {} }}", f, a, r, b),
            13 => format!("{{ {} = }}", f),
            14 => format!("{{ = {} }}", a),
            15 => format!("{{ {} : {} }}", f, a),
            16 => format!("{{ {} {} }}", f, r),
            17 => format!("{{ {} = 1 {} = 2 }}", f, r),
            18 => format!("{{ {}.{} = {} }}", f, r, a),
            19 => format!("{{ | {} = {} }}", f, a),
            20 => format!("{{ {} | {} }}", r, f),
            21 => format!("{{ {} | {} = {}, }}", r, f, a),
            22 => format!("{{ {} | , {} = {} }}", r, f, a),
            23 => format!("{{ {} | {} | {} = {} }}", r, r, f, a),
            24 => format!("{{ {} | {} = {} )", r, f, a),
            25 => format!("{{ {} = {} ]", f, a),
            26 => format!("{{ {} | {} = }}", r, f),
            27 => format!("{{ {}.{} | {} = {} }}", r, f, f, a),
            28 => format!("[ {}; {} ]", a, b),
            29 => format!("{{ {}, {} = {} }}", f, r, a),
            _ => format!("{{ {}.{} | {} = {} }}", up, r, f, a),
        };
        cx.nontrivial = true;
        return reject_in(cx, "a malformed list, tuple or record", &body);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.boost(&[LIST, TUPLE, RECORD, UPDATE, UNIT], 3);
        around(&mut g, &[LIST, TUPLE, RECORD, UPDATE])
    };
    let s = shape(&stmts);
    label_kinds(cx, &s, &[(LIST, "list"), (TUPLE, "tuple"), (RECORD, "record"), (UPDATE, "record update"), (UNIT, "unit")]);
    let p = agree(cx, "a list, tuple or record did not parse to its AST", &stmts)?;
    cx.nontrivial = s.kinds & (1 << LIST | 1 << TUPLE | 1 << RECORD | 1 << UPDATE) != 0 && s.nodes >= 4;
    let _ = p;
    Ok(())
}

pub fn c12(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(200) {
        let (a, b, x, y) = {
            let mut g = Gen::new(cx.src, cx.d);
            (flat_expr(&mut g), flat_expr(&mut g), g.lo(), g.lo())
        };
        let (a, b) = (show_expr(cx.src, &a), show_expr(cx.src, &b));
        let body = match cx.src.below(16) {
            0 => format!("let {} = {} {}", x, a, "then"),
            1 => format!("let in {}", a),
            2 => format!("let {} in {}", x, a),
            3 => format!("let {} = in {}", x, a),
            4 => format!("let {} = {} in", x, a),
            5 => format!("let = {} in {}", a, b),
            6 => format!("{} = {} in {}", x, a, b),
            7 => format!("let {} = {} in {} in {}", x, a, b, b),
            8 => format!("let {} : Int in {}", x, b),
            9 => format!("let {} = {}, {} = {} in {}", x, a, y, b, b),
            10 => format!("let {} == {} in {}", x, a, b),
            11 => format!("let {} -> {} in {}", x, a, b),
            12 => format!("let {} = {} | {} = {} in {}", x, a, y, b, b),
            13 => format!("let {{ {} = {} in {}", x, a, b),
            14 => format!("let {} = {} where {}", x, a, b),
            _ => format!("let {}. = {} in {}", x, a, b),
        };
        cx.nontrivial = true;
        return reject_in(cx, "a malformed let expression", &body);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.boost(&[LET], 5);
        around(&mut g, &[LET])
    };
    let s = shape(&stmts);
    label_kinds(cx, &s, &[(LET, "let"), (CASE, "case"), (LAMBDA, "lambda")]);
    let p = agree(cx, "a let expression did not parse to its AST", &stmts)?;
    let same = dump_of(&stmts);
    if cx.src.chance(300) {
        break_rule(cx, &p, &same, Some(&["let entry", "let entries", "in", "binding equals", "binding value", "let body"]))?;
    }
    if cx.src.chance(150) {
        drop_slot(cx, &p, &same, "let entry")?;
    }
    let mut sig = false;
    let mut fun = false;
    let mut pat = false;
    let mut many = false;
    for st in &stmts {
        if let Statement::Function(f) = st {
            each_expr(&f.definition.body, 0, &mut |e, _| {
                if let Expr::Let(es, _) = e {
                    many |= es.len() > 1;
                    for e in es {
                        match e {
                            LetEntry::LetFunction(f) => {
                                sig |= f.signature.is_some();
                                fun |= f.signature.is_none();
                            }
                            LetEntry::LetBinding(Expr::Variable(_), _) => {}
                            LetEntry::LetBinding(..) => pat = true,
                        }
                    }
                }
            });
        }
    }
    for (b, l) in &[(sig, "entry with a signature"), (fun, "local function"), (pat, "destructuring"), (many, "several entries")] {
        if *b {
            cx.labels.push(l);
        }
    }
    cx.nontrivial = s.kinds & (1 << LET) != 0 && (many || sig || fun || pat);
    Ok(())
}

/// Joins the two lines around a line break that separates entries: not the same program.
fn drop_slot(cx: &mut Ctx, p: &Printed, same: &str, what: &str) -> Result<(), Fail> {
    let c: Vec<&Slot> = p.slots.iter().filter(|s| s.what == what).collect();
    if c.is_empty() {
        return Ok(());
    }
    let s = (*cx.src.pick(&c)).clone();
    let mut t = p.text.clone();
    // back to the end of the line before, unless a comment is in between
    let head = t[..s.start].trim_end().len();
    if t[head..s.start].matches('\n').count() != 1 || t[..head].rsplit('\n').next().map(|l| l.contains("--")).unwrap_or(false) {
        return Ok(());
    }
    t.replace_range(head..s.start + s.len, " ");
    cx.text.push_str("\n=====\n");
    cx.text.push_str(&t);
    cx.labels.push("two entries on one line");
    match parse(&t) {
        Out::Ast { ref dump, .. } if dump == same => fail("two entries on one line are read as if they were on two", &t, "rejected, or a different AST", dump),
        _ => Ok(()),
    }
}

pub fn c13(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(200) {
        let (a, b, x, up) = {
            let mut g = Gen::new(cx.src, cx.d);
            (flat_expr(&mut g), flat_expr(&mut g), g.lo(), g.up())
        };
        let (a, b) = (show_expr(cx.src, &a), show_expr(cx.src, &b));
        let body = match cx.src.below(13) {
            0 => format!("case {} of", a),
            1 => format!("case of {} -> {}", x, b),
            2 => format!("case {} {} -> {}", a, x, b),
            3 => format!("case {} of {} = {}", a, x, b),
            4 => format!("case {} of {} {}", a, up, b),
            5 => format!("case {} of -> {}", a, b),
            6 => format!("case {} of {} ->", a, x),
            7 => format!("case {} of {} -> -> {}", a, x, b),
            8 => format!("case {} of | {} -> {}", a, x, b),
            9 => format!("case {} of {} -> {} | {} -> {}", a, x, b, up, b),
            10 => format!("case {} of {} => {}", a, x, b),
            11 => format!("case {} of {} -> {} of", a, x, b),
            _ => format!("case {} of {} -> {}, {} -> {}", a, x, b, up, b),
        };
        let t = match cx.src.below(3) {
            0 => format!("x = {}\n", body),
            1 => format!("x =\n    {}\n", body),
            _ => format!("x = f ({})\n", body),
        };
        cx.text.push_str(&t);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected("a malformed case expression was accepted", &t);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.boost(&[CASE], 5);
        around(&mut g, &[CASE])
    };
    let s = shape(&stmts);
    label_kinds(cx, &s, &[(LET, "let"), (CASE, "case"), (LAMBDA, "lambda"), (IF, "if")]);
    let p = agree(cx, "a case expression did not parse to its AST", &stmts)?;
    let same = dump_of(&stmts);
    if cx.src.chance(300) {
        break_rule(cx, &p, &same, Some(&["case branch", "case branches", "branch arrow", "branch body", "of", "case subject"]))?;
    }
    if cx.src.chance(150) {
        drop_slot(cx, &p, &same, "case branch")?;
    }
    let mut many = false;
    let mut nested = false;
    for st in &stmts {
        if let Statement::Function(f) = st {
            each_expr(&f.definition.body, 0, &mut |e, _| {
                if let Expr::Case(_, bs) = e {
                    many |= bs.len() > 1;
                    for b in bs {
                        if let Expr::Case(..) = b.1 {
                            nested = true;
                        }
                    }
                }
            });
        }
    }
    if nested {
        cx.labels.push("case directly in a branch");
    }
    if many {
        cx.labels.push("several branches");
    }
    cx.nontrivial = s.kinds & (1 << CASE) != 0 && many;
    Ok(())
}

pub fn c14(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (a, b, c, x) = {
            let mut g = Gen::new(cx.src, cx.d);
            (flat_expr(&mut g), flat_expr(&mut g), flat_expr(&mut g), g.lo())
        };
        let (a, b, c) = (show_expr(cx.src, &a), show_expr(cx.src, &b), show_expr(cx.src, &c));
        let body = match cx.src.below(18) {
            0 => format!("if {} then {}", a, b),
            1 => format!("if {} else {}", a, b),
            2 => format!("if {} {} else {}", a, b, c),
            3 => format!("if then {} else {}", b, c),
            4 => format!("if {} then else {}", a, c),
            5 => format!("if {} then {} else", a, b),
            6 => format!("if {} then {} then {} else {}", a, b, b, c),
            7 => format!("if {} then {} else {} else {}", a, b, c, c),
            8 => format!("{} then {} else {}", a, b, c),
            9 => format!("if {}, {} then {} else {}", a, b, b, c),
            10 => format!("\\ -> {}", a),
            11 => format!("\\{} {}", x, "+ 1"),
            12 => format!("\\{} = {}", x, a),
            13 => format!("\\{} ->", x),
            14 => format!("\\{} -> -> {}", x, a),
            15 => format!("\\{}, {} -> {}", x, x, a),
            16 => format!("\\{} => {}", x, a),
            _ => format!("{} -> {}", x, a),
        };
        // `b -> {}` in a branch would be another arrow
        let t = match cx.src.below(4) {
            0 => format!("x = {}\n", body),
            1 => format!("x =\n    {}\n", body),
            2 => format!("x = f ({})\n", body),
            _ => format!("x = [ a, ({}) ]\n", body),
        };
        cx.text.push_str(&t);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected("a malformed if or lambda expression was accepted", &t);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.boost(&[IF, LAMBDA], 5);
        around(&mut g, &[IF, LAMBDA])
    };
    let s = shape(&stmts);
    label_kinds(cx, &s, &[(IF, "if"), (LAMBDA, "lambda"), (CASE, "case"), (LET, "let")]);
    agree(cx, "an if or lambda expression did not parse to its AST", &stmts)?;
    cx.nontrivial = s.kinds & (1 << IF | 1 << LAMBDA) != 0 && s.nodes >= 5;
    Ok(())
}

// ------------------------------------------------------------------------ types, declarations

fn type_labels(cx: &mut Ctx, ts: &[&Type]) -> usize {
    let mut n = 0;
    let mut seen: Vec<&'static str> = vec![];
    for t in ts {
        each_type(t, &mut |t| {
            n += 1;
            seen.push(match t {
                Type::TypeVariable(_) => "type variable",
                Type::TypeConstructor(_, a) if a.is_empty() => "type name",
                Type::TypeConstructor(..) => "type with arguments",
                Type::TypeRecord(_) => "record type",
                Type::TypeRecordConstructor(..) => "extensible record type",
                Type::TypeTuple(a) if a.is_empty() => "unit type",
                Type::TypeTuple(_) => "tuple type",
                Type::TypeApplication(..) => "function type",
            });
        });
    }
    seen.sort();
    seen.dedup();
    cx.labels.extend(seen);
    n
}

pub fn c15(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (a, b, f, v, up) = {
            let mut g = Gen::new(cx.src, cx.d);
            (flat_type(&mut g), flat_type(&mut g), g.lo(), g.lo(), g.up())
        };
        let (a, b) = (show_type(cx.src, &a), show_type(cx.src, &b));
        let t = match cx.src.below(34) {
            0 => String::new(),
            29 => format!("{{ {} | }}", v),
            30 => format!("{{ | {} : {} }}", f, a),
            31 => format!("{{ {} : {},, {} : {} }}", f, a, v, b),
            32 => format!("{{ {} : {} {} : {} }}", f, a, v, b),
            1 => format!("-> {}", a),
            2 => format!("{} ->", a),
            3 => format!("{} -> -> {}", a, b),
            4 => format!("{} (", a),
            5 => format!("({}", a),
            6 => format!("{})", a),
            7 => format!("({}, )", a),
            8 => format!("(, {})", a),
            9 => format!("({},, {})", a, b),
            10 => format!("{{ {} : }}", f),
            11 => format!("{{ : {} }}", a),
            12 => format!("{{ {} {} }}", f, up),
            13 => format!("{{ {} : {}, }}", f, a),
            14 => format!("{{ {} = {} }}", f, a),
            15 => format!("{{ {} : {}", f, a),
            16 => format!("{{ {} | {} : }}", v, f),
            17 => format!("{{ {} | {} }}", v, f),
            18 => format!("{{ {} | {} : {}, }}", v, f, a),
            19 => format!("{{ {} | {} : {} | {} : {} }}", v, f, a, f, b),
            20 => format!("{{ {} {} : {} }}", v, f, a),
            21 => format!("{} {}", v, up),
            22 => format!("{}.{}", up, v),
            23 => format!("{}.", up),
            24 => "1".to_string(),
            25 => "\"s\"".to_string(),
            26 => format!("{} = {}", a, b),
            27 => format!("{} | {}", a, b),
            28 => format!("[ {} ]", a),
            _ => format!("{}, {}", a, b),
        };
        let text = match cx.src.below(4) {
            0 => format!("f : {}\nf = 1\n", t),
            1 => format!("port f : {}\n", t),
            2 => format!("type alias A = {}\n", t),
            _ => format!("f =\n  let\n    g : {}\n    g = 1\n  in\n    g\n", t),
        };
        cx.text.push_str(&text);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected("a malformed type was accepted", &text);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        let mut t = g.type_();
        if g.src.chance(150) {
            let n = g.size(1, 4, 60);
            t = g.type_nest(n, t);
        }
        let st = match g.src.below(5) {
            0 => Statement::PortTypeDeclaration(g.lo(), t),
            1 => Statement::TypeAliasDeclaration(Type::TypeConstructor(vec![g.up()], vec![]), t),
            2 => {
                let e = g.leaf();
                let n = g.lo();
                let f = Function { signature: Some(FunctionSignature { name: n.clone(), type_: t }), definition: FunctionDefinition { name: n, args: vec![], body: e } };
                let b = g.leaf();
                g.def(Expr::Let(vec![LetEntry::LetFunction(f)], Box::new(b)))
            }
            _ => {
                let e = g.leaf();
                let n = g.lo();
                Statement::Function(Function { signature: Some(FunctionSignature { name: n.clone(), type_: t }), definition: FunctionDefinition { name: n, args: vec![], body: e } })
            }
        };
        let mut v = vec![st];
        if g.src.chance(200) {
            v.push(g.statement());
        }
        v
    };
    let n = {
        let mut ts = vec![];
        for s in &stmts {
            match s {
                Statement::PortTypeDeclaration(_, t) => ts.push(t),
                Statement::TypeAliasDeclaration(_, t) => ts.push(t),
                Statement::Function(f) => {
                    if let Some(s) = &f.signature {
                        ts.push(&s.type_);
                    }
                    if let Expr::Let(es, _) = &f.definition.body {
                        for e in es {
                            if let LetEntry::LetFunction(f) = e {
                                if let Some(s) = &f.signature {
                                    ts.push(&s.type_);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        type_labels(cx, &ts)
    };
    agree(cx, "a type did not parse to its AST", &stmts)?;
    cx.nontrivial = n >= 3;
    Ok(())
}

pub fn c16(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (a, b, v, up, up2) = {
            let mut g = Gen::new(cx.src, cx.d);
            (flat_type(&mut g), flat_type(&mut g), g.lo(), g.up(), g.up())
        };
        let (a, b) = (show_type(cx.src, &a), show_type(cx.src, &b));
        let t = match cx.src.below(24) {
            0 => format!("type {}\n", up),
            22 | 23 => {
                // the name and the variables, with anything else in their place
                let kw = *cx.src.pick(&["type", "type alias"]);
                let l: Vec<String> = vec![
                    v.clone(),
                    format!("{} {}", v, v),
                    "{}".to_string(),
                    "()".to_string(),
                    format!("({})", up),
                    format!("({} {})", up, v),
                    format!("{}.{}", up, up2),
                    format!("{} {}", up, up2),
                    format!("{} {} {}", up, v, up2),
                    format!("{} {} {}.{}", up, v, up2, up),
                    format!("{} ()", up),
                    format!("{} {{}}", up),
                    format!("{} {} ({} {})", up, v, up2, v),
                    format!("{} ({}, {})", up, v, v),
                    format!("{} {{ {} : {} }} {}", up, v, up2, v),
                    format!("{} -> {}", up, v),
                    format!("{} _", up),
                    format!("{} 1", up),
                    format!("\"{}\"", up),
                    format!("{}, {}", up, up2),
                    format!("[{}]", up),
                ];
                format!("{} {} = {}\n", kw, cx.src.pick(&l), up2)
            }
            1 => format!("type {} =\n", up),
            2 => format!("type {} = | {}\n", up, up2),
            3 => format!("type {} = {} |\n", up, up2),
            4 => format!("type {} = {} | | {}\n", up, up2, up),
            5 => format!("type {} = {}\n", up, v),
            6 => format!("type {} = {} | {}\n", up, up2, v),
            7 => format!("type {} {}\n", up, up2),
            8 => format!("type {} = {}, {}\n", up, up2, up),
            9 => format!("type {} == {}\n", up, up2),
            10 => format!("type {} = {} -> {}\n", up, up2, up),
            11 => format!("type {} : {}\n", up, up2),
            12 => format!("type = {}\n", up),
            13 => format!("type alias {}\n", up),
            14 => format!("type alias {} =\n", up),
            15 => format!("type alias = {}\n", a),
            16 => format!("type alias {} {}\n", up, a),
            17 => format!("type alias {} = {} = {}\n", up, a, b),
            18 => format!("type alias {} = {} | {}\n", up, a, b),
            19 => format!("type alias {} : {}\n", up, a),
            20 => format!("type {} = ({})\n", up, up2),
            _ => format!("type {} = {} ({}\n", up, up2, a),
        };
        cx.text.push_str(&t);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected("a malformed type declaration was accepted", &t);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        let mut v = vec![if g.src.chance(600) { g.type_decl() } else { g.type_alias() }];
        if g.src.chance(300) {
            v.push(g.statement());
        }
        if g.src.chance(300) {
            let s = if g.src.chance(500) { g.type_decl() } else { g.type_alias() };
            v.push(s);
        }
        v
    };
    let s = shape(&stmts);
    for st in &stmts {
        match st {
            Statement::TypeAliasDeclaration(..) => cx.labels.push("type alias"),
            Statement::TypeDeclaration(n, c) => {
                cx.labels.push("type");
                if c.len() > 1 {
                    cx.labels.push("several constructors");
                }
                if c.len() > 12 {
                    cx.labels.push("more than 12 constructors");
                }
                if let Type::TypeConstructor(_, a) = n {
                    if !a.is_empty() {
                        cx.labels.push("type parameters");
                    }
                }
            }
            _ => {}
        }
    }
    agree(cx, "a type declaration did not parse to its AST", &stmts)?;
    cx.nontrivial = s.types >= 4;
    Ok(())
}

fn export_labels(cx: &mut Ctx, e: &ExportSet) -> usize {
    let mut n = 0;
    match e {
        ExportSet::AllExport => cx.labels.push("everything exposed"),
        ExportSet::SubsetExport(l) => {
            n = l.len();
            if n > 12 {
                cx.labels.push("more than 12 names exposed");
            }
            for e in l {
                match e {
                    ExportSet::FunctionExport(n) if is_op_name(n) => cx.labels.push("operator exposed"),
                    ExportSet::FunctionExport(_) => cx.labels.push("value exposed"),
                    ExportSet::TypeExport(_, None) => cx.labels.push("type exposed"),
                    ExportSet::TypeExport(_, Some(s)) => cx.labels.push(match **s {
                        ExportSet::AllExport => "type with all constructors exposed",
                        _ => "type with some constructors exposed",
                    }),
                    _ => {}
                }
            }
            cx.labels.sort();
            cx.labels.dedup();
        }
        _ => {}
    }
    n
}

fn bad_exposing(src: &mut Src, a: &str, b: &str, up: &str) -> String {
    match src.below(22) {
        0 => "()".to_string(),
        1 => format!("({}, )", a),
        2 => format!("(, {})", a),
        3 => format!("({} {})", a, b),
        4 => format!("(.., {})", a),
        5 => format!("({}, ..)", a),
        6 => format!("({}({}))", up, a),
        7 => format!("({}(..){})", up, a),
        8 => format!("({}())", up),
        9 => format!("({}.{})", a, b),
        10 => format!("({}.{})", up, up),
        11 => format!("({}", a),
        12 => a.to_string(),
        13 => format!("[{}]", a),
        14 => format!("({},, {})", a, b),
        15 => "(...)".to_string(),
        16 => "(+)".to_string(),
        17 => format!("(({}))", a),
        18 => format!("({}(.., {}))", up, up),
        19 => format!("({}({}, ))", up, up),
        20 => format!("{{{}}}", a),
        _ => format!("({} as {})", a, b),
    }
}

pub fn c17(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (a, b, up, up2) = {
            let mut g = Gen::new(cx.src, cx.d);
            (g.lo(), g.lo(), g.up(), g.up())
        };
        let kind = *cx.src.pick(&["module", "port module"]);
        let t = match cx.src.below(16) {
            0..=5 => {
                let e = bad_exposing(cx.src, &a, &b, &up2);
                format!("{} {} exposing {}\n", kind, up, e)
            }
            6 => format!("{} {}\n", kind, up),
            7 => format!("{} {} exposing\n", kind, up),
            8 => format!("{} exposing (..)\n", kind),
            9 => format!("{} {} (..)\n", kind, up),
            10 => format!("{} {}. exposing (..)\n", kind, up),
            11 => format!("{} {} {} exposing (..)\n", kind, up, up2),
            12 => format!("effect module {} exposing (..)\n", up),
            13 => format!("effect module {} where {{ {} = }} exposing (..)\n", up, a),
            14 => format!("effect module {} where {{ {} = {} exposing (..)\n", up, a, up2),
            _ => format!("{} {}..{} exposing (..)\n", kind, up, up2),
        };
        cx.text.push_str(&t);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected("a malformed module declaration was accepted", &t);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        let mut v = vec![g.header()];
        if g.src.chance(300) {
            v.push(g.statement());
        }
        v
    };
    let n = match &stmts[0] {
        Statement::ModuleDeclaration(n, e) => {
            cx.labels.push("module");
            n.len() + export_labels(cx, e)
        }
        Statement::PortModuleDeclaration(n, e) => {
            cx.labels.push("port module");
            n.len() + export_labels(cx, e)
        }
        Statement::EffectModuleDeclaration(n, w, e) => {
            cx.labels.push("effect module");
            n.len() + w.len() + export_labels(cx, e)
        }
        _ => 0,
    };
    agree(cx, "a module declaration did not parse to its AST", &stmts)?;
    cx.nontrivial = n >= 3;
    Ok(())
}

pub fn c18(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (a, b, up, up2) = {
            let mut g = Gen::new(cx.src, cx.d);
            (g.lo(), g.lo(), g.up(), g.up())
        };
        let t = match cx.src.below(18) {
            0..=5 => {
                let e = bad_exposing(cx.src, &a, &b, &up2);
                let alias = if cx.src.chance(300) { format!(" as {}", up2) } else { String::new() };
                format!("import {}{} exposing {}\n", up, alias, e)
            }
            6 => "import\n".to_string(),
            7 => format!("import {} as\n", up),
            8 => format!("import {} exposing\n", up),
            9 => format!("import {}.\n", up),
            10 => format!("import {} as {}.{}\n", up, up2, up),
            11 => format!("import {} exposing (..) as {}\n", up, up2),
            12 => format!("import {} as {} as {}\n", up, up2, up),
            13 => format!("import \"{}\"\n", up),
            14 => format!("import {} {}\n", up, up2),
            15 => format!("import {} (..)\n", up),
            16 => format!("import {}, {}\n", up, up2),
            _ => format!("import {}..{}\n", up, up2),
        };
        cx.text.push_str(&t);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected("a malformed import was accepted", &t);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        let mut v = vec![];
        if g.src.chance(200) {
            v.push(g.header());
        }
        let n = g.size(1, 3, 40);
        for _ in 0..n {
            v.push(g.import());
        }
        if g.src.chance(300) {
            v.push(g.statement());
        }
        v
    };
    let mut n = 0;
    for s in &stmts {
        if let Statement::ImportStatement(m, a, e) = s {
            n += m.len();
            if a.is_some() {
                cx.labels.push("alias");
                n += 1;
            }
            if a.is_some() && e.is_some() {
                cx.labels.push("alias and exposing");
            }
            if m.len() > 1 {
                cx.labels.push("dotted module name");
            }
            if let Some(e) = e {
                n += export_labels(cx, e);
            }
        }
    }
    agree(cx, "an import did not parse to its AST", &stmts)?;
    cx.nontrivial = n >= 3;
    Ok(())
}

pub fn c19(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(250) {
        let (a, up, op, e) = {
            let mut g = Gen::new(cx.src, cx.d);
            (g.lo(), g.up(), g.op(), flat_expr(&mut g))
        };
        let e = show_expr(cx.src, &e);
        let kw = *cx.src.pick(&["infixl", "infixr", "infix"]);
        let t = match cx.src.below(20) {
            0 => format!("port {}\n", a),
            1 => format!("port {} :\n", a),
            2 => format!("port {} =\n", a),
            3 => format!("port : {}\n", up),
            4 => format!("port = {}\n", e),
            5 => format!("port {} : {} = {}\n", a, up, e),
            6 => format!("port {} {} : {}\n", a, a, up),
            7 => format!("port {} -> {}\n", a, e),
            8 => format!("port port {} : {}\n", a, up),
            9 => format!("{}\n", kw),
            10 => format!("{} {}\n", kw, op),
            11 => format!("{} 5\n", kw),
            12 => format!("{} -1 {}\n", kw, op),
            13 => {
                let k = cx.src.range(1, 30);
                format!("{} 9223372036854775808{} {}\n", kw, "0".repeat(k - 1), op)
            }
            14 => format!("{} 5 {}\n", kw, up),
            15 => format!("{}x 5 {}\n", kw, op),
            16 => format!("{} 5 {} {}\n", kw, op, op),
            17 => format!("{} 5.0 {}\n", kw, op),
            18 => format!("{} {} 5\n", kw, op),
            _ => format!("{} 5 \"{}\"\n", kw, a),
        };
        cx.text.push_str(&t);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected("a malformed port or fixity declaration was accepted", &t);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.fuel = g.fuel.min(30);
        let mut v = vec![if g.src.chance(600) { g.port() } else { g.infix() }];
        if g.src.chance(300) {
            v.push(g.statement());
        }
        if g.src.chance(300) {
            let s = if g.src.chance(500) { g.port() } else { g.infix() };
            v.push(s);
        }
        v
    };
    for s in &stmts {
        match s {
            Statement::PortDeclaration(_, a, _) => {
                cx.labels.push("port definition");
                if !a.is_empty() {
                    cx.labels.push("port arguments");
                }
            }
            Statement::PortTypeDeclaration(..) => cx.labels.push("port signature"),
            Statement::InfixDeclaration(a, n, _) => {
                cx.labels.push(match a {
                    Assoc::L => "infixl",
                    Assoc::R => "infixr",
                    Assoc::N => "infix",
                });
                if *n > 9 {
                    cx.labels.push("precedence over 9");
                }
                if *n > u32::max_value() as i64 {
                    cx.labels.push("precedence over 32 bits");
                }
                cx.nontrivial = true;
            }
            _ => {}
        }
    }
    agree(cx, "a port or fixity declaration did not parse to its AST", &stmts)?;
    let s = shape(&stmts);
    cx.nontrivial |= s.nodes + s.types >= 3;
    Ok(())
}

pub fn c20(cx: &mut Ctx) -> Result<(), Fail> {
    match cx.src.below(4) {
        0 => {
            // comments as statements, between other declarations
            let stmts = {
                let mut g = Gen::new(cx.src, cx.d);
                g.fuel = g.fuel.min(20);
                let n = g.size(1, 3, 60);
                (0..n).map(|i| if i % 2 == 0 || g.src.chance(400) { Statement::Comment(g.comment()) } else { g.statement() }).collect::<Vec<_>>()
            };
            for s in &stmts {
                if let Statement::Comment(t) = s {
                    cx.labels.push(if t.contains('\n') { "comment over several lines" } else { "comment on one line" });
                    if t.contains('"') || t.contains("{-") || t.contains("--") {
                        cx.labels.push("comment with a delimiter in it");
                    }
                    if t.len() > 2 {
                        cx.nontrivial = true;
                    }
                }
            }
            cx.labels.sort();
            cx.labels.dedup();
            agree(cx, "a comment did not parse to its AST", &stmts)?;
            Ok(())
        }
        1 => {
            // comments between tokens leave no trace
            let stmts = {
                let mut g = Gen::new(cx.src, cx.d);
                small_module(&mut g)
            };
            let mut st = Style::draw(cx.src);
            st.comment = 500;
            st.newline = st.newline.max(200);
            let p = agree_in(cx, "a comment between tokens changed the AST", &stmts, st)?;
            cx.nontrivial = p.comments > 0;
            Ok(())
        }
        2 => {
            // a comment after the end of a declaration, with or without a line end
            let (stmts, c) = {
                let mut g = Gen::new(cx.src, cx.d);
                g.fuel = g.fuel.min(15);
                let mut c = g.comment();
                while c.contains('\n') {
                    c = c.replace('\n', " ");
                }
                (vec![g.statement()], c)
            };
            let mut t = print_canonical(&stmts);
            let end = t.trim_end_matches('\n').len();
            t.truncate(end);
            let gap = cx.src.range(1, 3);
            t.push_str(&"\n".repeat(gap));
            t.push_str("--");
            t.push_str(&c);
            if cx.src.chance(500) {
                t.push('\n');
            } else {
                cx.labels.push("comment ends the file");
            }
            let mut want = stmts.clone();
            want.push(Statement::Comment(c));
            cx.text.push_str(&t);
            cx.nontrivial = true;
            expect_ast("a comment after a declaration did not parse to its AST", &t, &want)
        }
        _ => {
            // malformed comments
            let c = {
                let mut g = Gen::new(cx.src, cx.d);
                g.comment().replace("-}", "")
            };
            let c = c.trim_end_matches('-').to_string();
            let t = match cx.src.below(5) {
                0 => format!("{{-{}", c),
                1 => format!("x = 1\n{{-{}\n", c),
                2 => format!("-{}\n", c.trim_start_matches('-').replace('\n', " ")),
                3 => "x = 1\n-}\n".to_string(),
                _ => format!("{{-{}-\nx = 1\n", c),
            };
            if t.contains("-}") && !t.ends_with("-}\n") || t.starts_with("--") {
                return Ok(());
            }
            cx.text.push_str(&t);
            cx.labels.push("malformed");
            cx.nontrivial = true;
            expect_rejected("a malformed comment was accepted", &t)
        }
    }
}

pub fn c21(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(200) {
        let (a, n, up, t) = {
            let mut g = Gen::new(cx.src, cx.d);
            (flat_expr(&mut g), g.lo(), g.up(), flat_type(&mut g))
        };
        let (a, t) = (show_expr(cx.src, &a), show_type(cx.src, &t));
        let s = match cx.src.below(16) {
            0 => format!("{} =\n", n),
            1 => format!("{} a b\n", n),
            2 => format!("{} = {}\n", up, a),
            3 => format!("1 = {}\n", a),
            4 => format!("{} = = {}\n", n, a),
            5 => format!("{} = {} = {}\n", n, a, a),
            6 => format!("{} : {}\n", n, t),
            7 => format!("{} =\n{}\n", n, "1"),
            8 => format!("= {}\n", a),
            9 => format!("{} : {}\n{} : {}\n{} = {}\n", n, t, n, t, n, a),
            10 => format!("{} :: {}\n{} = {}\n", n, t, n, a),
            11 => format!("{} := {}\n", n, a),
            12 => format!("{} -> {}\n", n, a),
            13 => format!("{}, {} = {}\n", n, n, a),
            14 => format!("{} : {} {} = {}\n", n, t, n, a),
            _ => format!("\"{}\" = {}\n", n, a),
        };
        cx.text.push_str(&s);
        cx.labels.push("malformed");
        cx.nontrivial = true;
        return expect_rejected("a malformed definition was accepted", &s);
    }
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        let n = g.size(1, 2, 20);
        (0..n)
            .map(|_| {
                let sig = g.src.chance(500);
                let s = Statement::Function(g.function(sig, 0));
                s
            })
            .collect::<Vec<_>>()
    };
    for s in &stmts {
        if let Statement::Function(f) = s {
            if f.signature.is_some() {
                cx.labels.push("signature");
                cx.nontrivial = true;
            }
            if f.definition.args.len() > 0 {
                cx.labels.push("arguments");
                cx.nontrivial = true;
            }
            if f.definition.args.len() > 8 {
                cx.labels.push("more than 8 arguments");
            }
            if is_op_name(&f.definition.name) {
                cx.labels.push("operator definition");
            }
            if f.definition.args.iter().any(|a| !matches!(a, Expr::Variable(_))) {
                cx.labels.push("pattern argument");
            }
        }
    }
    if stmts.len() > 1 {
        cx.labels.push("several definitions");
    }
    cx.labels.sort();
    cx.labels.dedup();
    agree(cx, "a function definition did not parse to its AST", &stmts)?;
    Ok(())
}

// ---------------------------------------------------------------------------------------- C24

/// Work on a text and on the same text scaled up.
/// `reps` copies of a sequence of constructs, one inside the other or one after the other.
struct Grown {
    family: usize,
    place: usize,
    seq: Vec<(usize, String)>,
    /// put after the closing of every level, mostly not allowed there
    junk: &'static str,
    inner: &'static str,
}

const JUNK: &[&str] = &[
    ".", ".a", ",", " ,", " ->", "->", " |", " =", " a", " (a)", ")", "]", "}", ";", "..", " :", " ::", " b c", "\n", " -- c\n", " {- c -}", " in", " of", " then", " else", " as", " +", "+", "\"", "'", "-", " 1", ".1", " \\", "\n  ", "\n a", "\n = a", "?",
];

const INNER: &[&str] = &["a", "1", "()", "[]", "{}", "\"s\"", "A", "A.b", "a.b", "(+)", "-1", "", "?", "\"", "(", "_", "a b"];

impl Grown {
    fn build(&self, reps: usize) -> String {
        let rep = |a: &str, unit: &str, b: &str| format!("{}{}{}", a, unit.repeat(reps), b);
        match self.family {
            // nested expressions
            0 => {
                let (before, after) = [
                    ("x =\n      ", "\n"),
                    ("x =\n  case\n      ", "\n   of\n    a -> 1\n"),
                    ("x =\n  let\n    y =\n      ", "\n  in\n    1\n"),
                    ("x =\n  if a then b else\n      ", "\n"),
                    ("port a b =\n      ", "\n"),
                    ("x =\n  [\n      ", "\n  ]\n"),
                    ("x =\n  { a =\n      ", "\n  }\n"),
                    ("x =\n  a +\n      ", "\n"),
                    ("x =\n  f\n      ", "\n"),
                    ("x : a\nx = \\a ->\n      ", "\n"),
                    ("x =\n  case a of\n    b ->\n      ", "\n    c -> d\n"),
                    ("x =\n  (", ")\n"),
                ][self.place % 12];
                let mut head = String::from(before);
                let mut tail = String::new();
                let mut ind = 6;
                for i in 0..reps {
                    let (k, n) = &self.seq[i % self.seq.len()];
                    let (a, b): (String, String) = match k % 22 {
                        0 => ("(".into(), ")".into()),
                        1 => ("[ ".into(), " ]".into()),
                        2 => (format!("{{ {} = ", n), " }".into()),
                        3 => (format!("{{ r | {} = ", n), " }".into()),
                        4 => (format!("\\{} -> ", n), "".into()),
                        5 => (format!("if {} then ", n), " else b".into()),
                        6 => (format!("f {} (", n), ")".into()),
                        7 => (format!("( {}, ", n), " )".into()),
                        8 => {
                            ind += 1;
                            (format!("case {} of\n{}B -> ", n, " ".repeat(ind)), "".into())
                        }
                        9 => {
                            ind += 1;
                            (format!("let\n{}{} =\n{} ", " ".repeat(ind), n, " ".repeat(ind)), " in b".into())
                        }
                        10 => (format!("{} + ", n), "".into()),
                        11 => ("[ a, ".into(), ", b ]".into()),
                        12 => ("(f ".into(), " a)".into()),
                        13 => (format!("if a then {} else ", n), "".into()),
                        14 => (format!("let {} = 1 in ", n), "".into()),
                        15 => ("(case ".into(), " of a -> b)".into()),
                        16 => ("( a + ".into(), " )".into()),
                        17 => ("if (".into(), ") then a else b".into()),
                        18 => (format!("\\( {}, _ ) -> (", n), ")".into()),
                        19 => ("[".into(), "]".into()),
                        20 => ("f ".into(), "".into()),
                        _ => ("( ".into(), ", a )".into()),
                    };
                    head.push_str(&a);
                    tail.insert_str(0, self.junk);
                    tail.insert_str(0, &b);
                }
                head + self.inner + &tail + after
            }
            // nested types
            1 => {
                let (before, after) = [
                    ("x : ", "\nx = 1\n"),
                    ("type alias A = ", "\n"),
                    ("type A = B (", ")\n"),
                    ("port a : ", "\n"),
                    ("x =\n  let\n    y : ", "\n    y = 1\n  in\n    1\n"),
                    ("type A = B ", " | C\n"),
                    ("type alias A =\n  { a : ", "\n  }\n"),
                ][self.place % 7];
                let mut head = String::from(before);
                let mut tail = String::new();
                for i in 0..reps {
                    let (k, n) = &self.seq[i % self.seq.len()];
                    let (a, b): (String, String) = match k % 10 {
                        0 => ("(".into(), ")".into()),
                        1 => ("Maybe (".into(), ")".into()),
                        2 => (format!("{{ {} : ", n), " }".into()),
                        3 => (format!("{{ r | {} : ", n), " }".into()),
                        4 => (format!("{} -> ", n), "".into()),
                        5 => ("( a, ".into(), " )".into()),
                        6 => ("( ".into(), ", a )".into()),
                        7 => ("A.B a (".into(), ") b".into()),
                        8 => ("(a -> ".into(), ")".into()),
                        _ => ("(".into(), " -> b)".into()),
                    };
                    head.push_str(&a);
                    tail.insert_str(0, self.junk);
                    tail.insert_str(0, &b);
                }
                head + self.inner + &tail + after
            }
            // nested patterns
            2 => {
                let (before, after) = [
                    ("x ", " =\n    1\n"),
                    ("x =\n    \\", " -> 1\n"),
                    ("x =\n    case a of\n        ", " ->\n            1\n"),
                    ("x =\n    case a of\n        b -> c\n        ", " ->\n            1\n        d -> e\n"),
                    ("x =\n    let\n        ", " =\n            1\n    in\n        1\n"),
                    ("x =\n    let\n        f ", " =\n            1\n    in\n        1\n"),
                    ("x a ", " b =\n    1\n"),
                ][self.place % 7];
                let mut head = String::from(before);
                let mut tail = String::new();
                for i in 0..reps {
                    let (k, n) = &self.seq[i % self.seq.len()];
                    let (a, b): (String, String) = match k % 10 {
                        0 => ("(".into(), ")".into()),
                        1 => ("[ ".into(), " ]".into()),
                        2 => ("[ a, ".into(), " ]".into()),
                        3 => (format!("{} :: ", n), "".into()),
                        4 => ("(".into(), " :: b)".into()),
                        5 => ("( a, ".into(), " )".into()),
                        6 => ("( ".into(), ", a )".into()),
                        7 => ("A (".into(), ")".into()),
                        8 => ("(A ".into(), " b)".into()),
                        _ => ("(".into(), format!(" as {})", n)),
                    };
                    head.push_str(&a);
                    tail.insert_str(0, self.junk);
                    tail.insert_str(0, &b);
                }
                head + self.inner + &tail + after
            }
            // length
            _ => {
                let (k, n) = &self.seq[0];
                let n = &format!("{}{}", n, self.junk);
                match k {
                    0 => rep("x = f", &format!(" {}", n), "\n"),
                    1 => rep("x = [ a", &format!(", {}", n), " ]\n"),
                    2 => rep("x = ( a", &format!(", {}", n), " )\n"),
                    3 => rep("x = a", &format!(" + {}", n), "\n"),
                    4 => rep("x = { a = 1", &format!(", {} = 1", n), " }\n"),
                    5 => rep("x =\n  case a of\n", &format!("    {} -> 1\n", n), ""),
                    6 => rep("x =\n  let\n", &format!("    {} = 1\n", n), "  in\n    a\n"),
                    7 => rep("x =\n  \\a", &format!(" {}", n), " -> 1\n"),
                    8 => rep("x", &format!(" {}", n), " = 1\n"),
                    9 => rep("x : a", &format!(" -> {}", n), "\nx = 1\n"),
                    10 => rep("type A = B", &format!(" | C {}", n), "\n"),
                    11 => rep("import A exposing (a", &format!(", {}", n), ")\n"),
                    12 => rep("", &format!("{} = 1\n", n), "\n"),
                    13 => rep("", &format!("-- {}\n", n), "x = 1\n"),
                    14 => rep("x =\n", &format!("  -- {}\n", n), "  1\n"),
                    15 => rep("x = \"", "a\\\\", "\"\n"),
                    16 => rep("x = \"\"\"", "a\n", "\"\"\"\n"),
                    17 => rep("x = a", &format!(".{}", n), "\n"),
                    18 => rep("{-", " a\n", "-}\n"),
                    19 => rep("x = a", "\n\n", "\n"),
                    20 => rep("x = a", &format!("\n  {}", n), "\n"),
                    21 => rep("x =\n  if a then b", &format!("\n  else if {} then b", n), "\n  else c\n"),
                    22 => rep("x =\n  case a of\n    b", &format!(" :: {}", n), " -> 1\n"),
                    23 => rep("x =\n  case a of\n    B", &format!(" {}", n), " -> 1\n"),
                    24 => rep("x =\n  case a of\n    [ b", &format!(", {}", n), " ] -> 1\n"),
                    25 => rep("x =\n  let\n    ( b", &format!(", {}", n), " ) = 1\n  in a\n"),
                    26 => rep("x =\n  let\n", &format!("    {} : A\n    {} b = 1\n", n, n), "  in\n    a\n"),
                    27 => rep("x ( a", &format!(", {}", n), " ) = 1\n"),
                    28 => rep("x { a", &format!(", {}", n), " } = 1\n"),
                    29 => rep("x : { a : b", &format!(", {} : A", n), " }\nx = 1\n"),
                    30 => rep("x : ( a", &format!(", {}", n), " )\nx = 1\n"),
                    31 => rep("x : A", &format!(" {}", n), "\nx = 1\n"),
                    32 => rep("module A exposing (a", &format!(", {}", n), ")\n"),
                    33 => rep("module A exposing (A(B", ", C", "))\n"),
                    34 => rep("module A", ".A", " exposing (..)\n"),
                    35 => rep("", "import A\n", ""),
                    36 => rep("x = ", "-", "1\n"),
                    37 => rep("x =\n  ", "{- a -} ", "1\n"),
                    38 => rep("x =\n  [ a\n", &format!("  , {} -- c\n", n), "  ]\n"),
                    39 => rep("type A", &format!(" {}", n), " = B\n"),
                    40 => rep("x = { r | a = 1", &format!(", {} = 1", n), " }\n"),
                    41 => rep("port a", &format!(" {}", n), " = 1\n"),
                    42 => rep("effect module A where { a = B", ", c = D", " } exposing (..)\n"),
                    43 => rep("x = ", "(", "\n"),
                    44 => rep("x = ", "[", "\n"),
                    45 => rep("x = 1", "1", "\n"),
                    46 => rep("x = a", "a", "\n"),
                    47 => rep("x = a ", "+", " b\n"),
                    48 => rep("x = (", ",", ")\n"),
                    49 => rep("x = '", "a", "'\n"),
                    50 => rep("x =", " ", "1\n"),
                    _ => rep("x = \"", "a", "\n"),
                }
            }
        }
    }
}

/// Levels out of generated expressions, patterns or types with a place in each for the next.
fn c24_generated(cx: &mut Ctx) -> Result<(), Fail> {
    let sort = cx.src.weighted(&[60, 20, 20]);
    let n = cx.src.range(1, 4);
    let mut levels_e: Vec<Expr> = vec![];
    let mut levels_t: Vec<Type> = vec![];
    let mixed = cx.src.chance(100);
    let kinds = cx.src.chance(400);
    let kind = cx.src.below(KINDS);
    for _ in 0..n {
        let mut g = Gen::new(cx.src, cx.d);
        let fuel = 4 + 8 * g.src.below(2) as i64;
        g.fuel = g.fuel.min(fuel);
        if kinds {
            g.boost(&[kind], 30);
        }
        if sort == 2 {
            let mut t = g.type_();
            let mut d = meta::Dig::new(meta::NOWHERE, true);
            d.t(&mut t);
            if d.seen > 0 {
                let mut d = meta::Dig::new(cx.src.below(d.seen), true);
                d.t(&mut t);
                levels_t.push(t);
            }
        } else {
            let mut e = match (sort, g.src.below(4)) {
                (1, _) => g.pattern(),
                (_, 0) => g.expr(),
                _ => {
                    let k = 1 + g.src.below(KINDS - 1);
                    g.kind(k)
                }
            };
            let mut d = meta::Dig::new(meta::NOWHERE, false);
            d.patterns = mixed || sort == 1;
            d.e(&mut e);
            if d.seen > 0 {
                // the last places are those where the most can go wrong
                let at = if cx.src.chance(300) { d.seen - 1 } else { cx.src.below(d.seen) };
                let mut d = meta::Dig::new(at, false);
                d.patterns = mixed || sort == 1;
                d.e(&mut e);
                levels_e.push(e);
            }
        }
    }
    if levels_e.len() + levels_t.len() == 0 {
        return Ok(());
    }
    let none = Type::TypeTuple(vec![]);
    let (end_e, end_t) = {
        let mut g = Gen::new(cx.src, cx.d);
        g.fuel = 1;
        (g.leaf(), Type::TypeVariable(g.lo()))
    };
    let small = 6 * cx.src.range(1, 3);
    let large = 2 * small;
    let place = cx.src.below(4);
    let layout = cx.src.chance(400);
    let cut = cx.src.weighted(&[60, 15, 25]);
    let mut texts = vec![];
    let st = if layout { Style::draw(cx.src) } else { Style::canonical() };
    for reps in [small, large].iter() {
        let mut e = end_e.clone();
        let mut t = end_t.clone();
        for i in (0..*reps).rev() {
            if sort == 2 {
                t = meta::fill_t(&levels_t[i % levels_t.len()], &t);
            } else {
                e = meta::fill_e(&levels_e[i % levels_e.len()], &e, &none);
            }
        }
        let def = |args: Vec<Expr>, body: Expr| FunctionDefinition { name: "x".to_string(), args, body };
        let one = Expr::Variable(vec!["a".to_string()]);
        let s = match (sort, place) {
            (0, 0) => Statement::Function(Function { signature: None, definition: def(vec![], Expr::Let(vec![LetEntry::LetBinding(one.clone(), e)], Box::new(one))) }),
            (0, _) => Statement::Function(Function { signature: None, definition: def(vec![], e) }),
            (1, 0) => Statement::Function(Function { signature: None, definition: def(vec![e], one) }),
            (1, 1) => Statement::Function(Function { signature: None, definition: def(vec![], Expr::Lambda(vec![e], Box::new(one))) }),
            (1, 2) => Statement::Function(Function { signature: None, definition: def(vec![], Expr::Let(vec![LetEntry::LetBinding(e, one.clone())], Box::new(one))) }),
            (1, _) => Statement::Function(Function { signature: None, definition: def(vec![], Expr::Case(Box::new(one.clone()), vec![(e, one)])) }),
            (_, 0) => Statement::TypeAliasDeclaration(Type::TypeConstructor(vec!["A".to_string()], vec![]), t),
            (_, 1) => Statement::PortTypeDeclaration("x".to_string(), t),
            (_, 2) => Statement::TypeDeclaration(Type::TypeConstructor(vec!["A".to_string()], vec![]), vec![Type::TypeConstructor(vec!["B".to_string()], vec![t])]),
            _ => Statement::Function(Function { signature: Some(FunctionSignature { name: "x".to_string(), type_: t }), definition: def(vec![], one) }),
        };
        let mut text = if layout { print_module(&[s], cx.src, st.clone(), &[]).text } else { print_canonical(&[s]) };
        match cut {
            1 => {
                let n = text.trim_end().len();
                text.truncate(n - n.min(1));
                while text.pop().map(|c| c.is_ascii()) == Some(false) {}
                text.push_str("\n?\n");
            }
            2 => {
                let e = cx.src.range(1, 2);
                for _ in 0..e {
                    text = mutate::mutate(&text, cx.src, cx.d);
                }
            }
            _ => {}
        }
        if text.len() > 60_000 {
            return Ok(());
        }
        texts.push(text);
    }
    let mut w = vec![];
    for t in &texts {
        let w0 = work();
        let ok = parse(t).accepted();
        w.push(work() - w0);
        cx.labels.push(if cut > 0 { "damaged" } else if ok { "accepted" } else { "rejected" });
    }
    cx.text.push_str(&texts[0]);
    cx.nontrivial = true;
    cx.labels.push(["generated expressions", "generated patterns", "generated types"][sort]);
    cx.labels.sort();
    cx.labels.dedup();
    // an edited text may be rejected anywhere: no more than for a text of that size
    let ground = if cut == 2 { 40 * texts[0].len() as u64 } else { 0 };
    let ratio = w[1] as f64 / w[0].max(1).max(ground) as f64;
    let scale = (texts[1].len() as f64 / texts[0].len() as f64).max(2.0);
    let bound = scale.powi(3) * 1.3;
    if ratio > bound && w[1] > 20_000 {
        return fail(
            "the work of parsing grows out of proportion to the text",
            &texts[1],
            &format!("at most {:.1} times the work for {:.1} times the text", bound, scale),
            &format!("{:.1} times ({} and {} allocations)", ratio, w[0], w[1]),
        );
    }
    Ok(())
}

pub fn c24(cx: &mut Ctx) -> Result<(), Fail> {
    if cx.src.chance(350) {
        return c24_generated(cx);
    }
    let family = cx.src.weighted(&[45, 18, 17, 30]);
    let mut seq = vec![];
    let n = if family == 3 { 1 } else { cx.src.range(1, 4) };
    for _ in 0..n {
        let k = cx.src.below(if family == 3 { 52 } else { 22 });
        let name = cx.src.pick(&["a", "b", "msg", "x1", "_", "A", "1", "()", "(a, b)", "[ a ]", "\"s\"", "a.b", "(a b)"]).to_string();
        seq.push((k, name));
    }
    if family != 2 {
        for s in seq.iter_mut() {
            if cx.src.chance(700) {
                s.1 = cx.src.pick(&["a", "b", "msg", "x1"]).to_string();
            }
        }
    }
    let junk = if cx.src.chance(300) { *cx.src.pick(JUNK) } else { "" };
    let inner = if cx.src.chance(250) { *cx.src.pick(INNER) } else { "a" };
    let place = if cx.src.chance(500) { cx.src.below(12) } else { 0 };
    let g = Grown { family, place, seq, junk, inner };
    let small = if family == 3 { 40 } else { 12 } * cx.src.range(1, 4);
    let large = 2 * small;
    let cut = cx.src.chance(300);
    let mut texts = vec![g.build(small), g.build(large)];
    if cut {
        // the same without its end: rejected, but not slower
        for t in texts.iter_mut() {
            let n = t.trim_end().len();
            t.truncate(n - n.min(1));
            while t.pop().map(|c| c.is_ascii()) == Some(false) {}
            t.push_str("\n?\n");
        }
    }
    let mut w = vec![];
    for t in &texts {
        let w0 = work();
        let ok = parse(t).accepted();
        w.push(work() - w0);
        if cut {
            cx.labels.push("damaged");
        } else if !junk.is_empty() {
            cx.labels.push("something after every level");
        } else {
            cx.labels.push(if ok { "accepted" } else { "rejected" });
        }
    }
    cx.text.push_str(&texts[0]);
    cx.nontrivial = true;
    cx.labels.push(["nested expressions", "nested types", "nested patterns", "long"][family]);
    cx.labels.sort();
    cx.labels.dedup();
    let ratio = w[1] as f64 / w[0].max(1) as f64;
    let scale = large as f64 / small as f64;
    // at most cubic, with room for constants
    let bound = scale.powi(3) * 1.3;
    if ratio > bound && w[1] > 20_000 {
        return fail(
            "the work of parsing grows out of proportion to the text",
            &texts[1],
            &format!("at most {:.1} times the work for {:.1} times the text", bound, scale),
            &format!("{:.1} times ({} and {} allocations)", ratio, w[0], w[1]),
        );
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C25

pub fn c25(cx: &mut Ctx) -> Result<(), Fail> {
    let n = cx.src.range(2, 6);
    let mut parts: Vec<String> = vec![];
    for _ in 0..n {
        let stmts = {
            let mut g = Gen::new(cx.src, cx.d);
            g.fuel = g.fuel.min(60);
            match g.src.below(5) {
                0 => vec![g.header()],
                1 => vec![g.import()],
                2 => small_module(&mut g),
                _ => vec![g.statement()],
            }
        };
        let st = if cx.src.chance(500) { Style::canonical() } else { Style::draw(cx.src) };
        parts.push(print_module(&stmts, cx.src, st, &ints(cx.d)).text);
    }
    let strip = |o: &Out| -> Option<String> {
        match o {
            Out::Ast { rest, dump } if rest.is_empty() && dump.len() > 2 => Some(dump[1..dump.len() - 1].to_string()),
            _ => None,
        }
    };
    let mut asts = vec![];
    for p in &parts {
        match strip(&parse(p)) {
            Some(a) => asts.push(a),
            None => return fail("a part was rejected", p, "accepted", &parse(p).show()),
        }
    }
    // in order, in another order, and one part twice
    let mut order: Vec<usize> = (0..n).collect();
    if cx.src.chance(600) {
        for i in (1..n).rev() {
            let j = cx.src.below(i + 1);
            order.swap(i, j);
        }
    }
    if cx.src.chance(300) {
        let i = cx.src.below(n);
        order.push(i);
    }
    const SEPS: &[&str] = &["\n", "\n\n", "\n\n\n\n", "\n  \n", "\n\t\n", "\n\r\n", "\n \t \n\n", "\n\n\r\n\r\n", "\n        \n \n", "\n\n\n\n\n\n\n\n\n\n\n\n"];
    let mixed = cx.src.chance(300);
    let mut sep = *cx.src.pick(SEPS);
    let mut text = String::new();
    let mut want = vec![];
    for i in &order {
        text.push_str(parts[*i].trim_end_matches('\n'));
        if mixed {
            sep = *cx.src.pick(SEPS);
        }
        text.push_str(sep);
        want.push(asts[*i].clone());
    }
    let want = format!("[{}]", want.join(", "));
    cx.text.push_str(&text);
    cx.nontrivial = true;
    if order.len() > 4 {
        cx.labels.push("more than 4 parts");
    }
    match parse(&text) {
        Out::Ast { ref rest, ref dump } if rest.is_empty() && *dump == want => Ok(()),
        o => fail("the AST of a file is not the ASTs of its parts one after another", &text, &want, &o.show()),
    }
}
