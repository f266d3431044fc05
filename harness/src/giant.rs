//! One construct of an extraordinary size: counters, capacities and recursion limits show here.

use crate::ast::*;
use crate::engine::*;
use crate::props::{dump_of, with_edits};

type Check = fn(&mut Ctx) -> Result<(), Fail>;

/// One case in so many is a giant.
const RATE: usize = 2500;

fn kinds(id: &str) -> &'static [&'static str] {
    match id {
        "C01" | "C04" => ALL,
        "C02" => &["blank lines", "spaces", "comment lines", "brackets", "indentation", "type brackets"],
        "C07" => &["chain", "left operand", "operator"],
        "C08" => &["arguments", "accesses", "accessor", "bracketed arguments"],
        "C09" => &["string", "triple string", "integer", "float", "fraction", "escapes"],
        "C10" => &["lo name", "up name", "path", "argument name", "field name", "type name"],
        "C11" => &["list", "tuple", "record", "update", "nested lists", "unit list"],
        "C12" => &["let bindings", "let functions", "nested lets"],
        "C13" => &["branches", "inline cases", "string branches"],
        "C14" => &["lambda arguments", "else ifs", "nested lambdas"],
        "C15" => &["type arguments", "type tuple", "record type", "extended record", "arrows", "nested types", "type path"],
        "C16" => &["constructors", "constructor arguments", "type parameters", "alias record"],
        "C17" => &["exports", "constructor exports", "module path", "effects"],
        "C18" => &["import path", "import exports", "imports"],
        "C19" => &["port arguments", "port arrows", "infixes"],
        "C20" => &["line comment", "block comment", "comments", "block comment lines"],
        "C21" => &["function arguments", "functions", "signatures"],
        "C25" => &["comments", "functions", "signatures", "imports", "infixes"],
        _ => &[],
    }
}

const ALL: &[&str] = &[
    "chain", "arguments", "accesses", "string", "triple string", "integer", "float", "lo name", "path", "list", "tuple", "record", "update", "let bindings", "let functions", "branches", "lambda arguments", "else ifs",
    "type arguments", "type tuple", "record type", "extended record", "arrows", "constructors", "constructor arguments", "type parameters", "exports", "constructor exports", "effects", "import exports", "imports",
    "port arguments", "infixes", "line comment", "block comment", "comments", "function arguments", "functions", "signatures",
];

pub fn with(cx: &mut Ctx, id: &str, check: Check, per_mille: u32, edits: &[usize], only_accepted: bool) -> Result<(), Fail> {
    let k = kinds(id);
    if !k.is_empty() && cx.src.below(RATE) == RATE - 1 {
        let k = *cx.src.pick(k);
        return giant(cx, k);
    }
    with_edits(cx, check, per_mille, edits, only_accepted)
}

fn count(cx: &mut Ctx, cap: usize) -> usize {
    let n = match cx.src.weighted(&[20, 20, 15, 10, 8, 14, 20, 15]) {
        0 => cx.src.range(250, 260),
        1 => cx.src.range(500, 1100),
        2 => cx.src.range(4090, 4100),
        3 => cx.src.range(9_998, 10_003),
        4 => cx.src.range(32_765, 32_770),
        5 => cx.src.range(65_533, 65_540),
        6 => {
            let big: Vec<u64> = cx.d.ints.iter().filter(|n| **n > 100 && **n < 200_000).cloned().collect();
            if big.is_empty() {
                1000
            } else {
                (big[cx.src.below(big.len())] as usize + cx.src.range(0, 2)).saturating_sub(1)
            }
        }
        _ => cx.src.range(100, 70_000),
    };
    n.min(cap)
}

fn s(t: &str) -> String {
    t.to_string()
}
fn con(n: &str) -> Type {
    Type::TypeConstructor(vec![s(n)], vec![])
}
fn def(name: &str, args: Vec<Expr>, body: Expr) -> Statement {
    Statement::Function(Function { signature: None, definition: FunctionDefinition { name: s(name), args, body } })
}
fn sig(t: Type) -> Statement {
    Statement::Function(Function { signature: Some(FunctionSignature { name: s("x"), type_: t }), definition: FunctionDefinition { name: s("x"), args: vec![], body: Expr::Integer(s("1")) } })
}
fn app(l: Vec<Expr>) -> Expr {
    let mut l = l.into_iter();
    let f = l.next().unwrap();
    l.fold(f, |f, a| Expr::Application(Box::new(f), Box::new(a)))
}
fn arrows(l: Vec<Type>) -> Type {
    let mut l = l.into_iter().rev();
    let t = l.next().unwrap();
    l.fold(t, |t, a| Type::TypeApplication(Box::new(a), Box::new(t)))
}

/// Recursion: every level costs the parser stack.
const DEEP: usize = 1500;

pub fn giant(cx: &mut Ctx, kind: &str) -> Result<(), Fail> {
    let deep = matches!(kind, "chain" | "left operand" | "brackets" | "type brackets" | "nested lists" | "nested lets" | "inline cases" | "else ifs" | "nested lambdas" | "nested types");
    let n = count(cx, if deep { DEEP } else { 200_000 });
    let same = cx.src.chance(300);
    let lo = |i: usize| if same { s("a") } else { format!("a{}", i) };
    let up = |i: usize| if same { s("A") } else { format!("A{}", i) };
    let v = |i: usize| var(&lo(i));
    let vs = || (0..n).map(|i| v(i)).collect::<Vec<_>>();
    let los = || (0..n).map(|i| lo(i)).collect::<Vec<_>>();
    let ups = || (0..n).map(|i| up(i)).collect::<Vec<_>>();
    let cons = || (0..n).map(|i| con(&up(i))).collect::<Vec<_>>();
    let los_t = |sep: &str| los().join(sep);
    let ups_t = |sep: &str| ups().join(sep);
    let fields_t = |eq: &str| (0..n).map(|i| format!("{} {} {}", lo(i), eq, i)).collect::<Vec<_>>().join(", ");
    let fields = || (0..n).map(|i| (lo(i), Expr::Integer(i.to_string()))).collect::<Vec<_>>();
    let tfields_t = || (0..n).map(|i| format!("{} : {}", lo(i), up(i))).collect::<Vec<_>>().join(", ");
    let tfields = || (0..n).map(|i| (lo(i), con(&up(i)))).collect::<Vec<_>>();
    let sep = *cx.src.pick(&[" ", "\n    ", "  "]);
    // a run that is not all the same
    let run = |unit: &str, last: &str| format!("{}{}", unit.repeat(n - 1), last);
    let one = |body: Expr| vec![def("x", vec![], body)];
    let int1 = || Expr::Integer(s("1"));
    let (text, want): (String, Vec<Statement>) = match kind {
        "blank lines" => (format!("x ={}\n 1\n{}y = 2\n", "\n".repeat(n), "\n".repeat(n)), vec![def("x", vec![], int1()), def("y", vec![], Expr::Integer(s("2")))]),
        "spaces" => (format!("x ={}f{}a\n", " ".repeat(n), " ".repeat(n)), one(app(vec![var("f"), var("a")]))),
        "comment lines" => (format!("x ={}\n 1\n", "\n--c".repeat(n)), one(int1())),
        "indentation" => {
            let i = " ".repeat(n);
            (format!("x =\n{}case a of\n{} b -> f\n{}   c\n{} d -> 1\n", i, i, i, i), one(Expr::Case(Box::new(var("a")), vec![(var("b"), app(vec![var("f"), var("c")])), (var("d"), int1())])))
        }
        "brackets" => (format!("x = {}a{}\n", "(".repeat(n), ")".repeat(n)), one(var("a"))),
        "type brackets" => (format!("x : {}A{}\nx = 1\n", "(".repeat(n), ")".repeat(n)), vec![sig(con("A"))]),
        "chain" => {
            let t = (0..n).map(|i| format!("{} +{}", lo(i), sep)).collect::<String>();
            let e = (0..n).rev().fold(int1(), |e, i| Expr::BinOp(Box::new(var("+")), Box::new(v(i)), Box::new(e)));
            (format!("x = {}1\n", t), one(e))
        }
        "left operand" => {
            let e = (0..n).fold(var("b"), |e, i| Expr::BinOp(Box::new(var("-")), Box::new(e), Box::new(v(i))));
            (format!("x = {}b{}\n", "(".repeat(n - 1), (0..n).map(|i| format!(" - {}", lo(i))).collect::<Vec<_>>().join(")")), one(e))
        }
        "operator" => {
            let op = run("<", ">");
            (format!("x = a {} b\ny = ({})\n", op, op), vec![def("x", vec![], Expr::BinOp(Box::new(var(&op)), Box::new(var("a")), Box::new(var("b")))), def("y", vec![], var(&op))])
        }
        "arguments" => (format!("x = f{}{}\n", sep, los_t(sep)), {
            let mut l = vec![var("f")];
            l.extend(vs());
            one(app(l))
        }),
        "bracketed arguments" => (format!("x = f {}\n", (0..n).map(|i| format!("(g {})", lo(i))).collect::<Vec<_>>().join(sep)), {
            let mut l = vec![var("f")];
            l.extend((0..n).map(|i| app(vec![var("g"), v(i)])));
            one(app(l))
        }),
        "accesses" => (format!("x = b.{}\n", los_t(".")), one(Expr::Access(Box::new(var("b")), los()))),
        "accessor" => {
            let f = run("a", "Z");
            (format!("x = .{} {}.{}\n", f, f, f), one(app(vec![Expr::AccessFunction(f.clone()), Expr::Access(Box::new(var(&f)), vec![f.clone()])])))
        }
        "string" => (format!("x = \"{}\"\n", run("s", "e")), one(Expr::String(run("s", "e")))),
        "escapes" => {
            let t = run("\\\"", "\\\\");
            (format!("x = [ \"{}\", \"\"\"{}\"\"\" ]\n", t, t), one(Expr::List(vec![Expr::String(t.clone()), Expr::String(t)])))
        }
        "triple string" => {
            let t = run("s\n", "e");
            (format!("x = \"\"\"{}\"\"\"\n", t), one(Expr::String(t)))
        }
        "integer" => (format!("x = {}\n", run("9", "1")), one(Expr::Integer(run("9", "1")))),
        "float" => (format!("x = {}.5\n", run("9", "1")), one(Expr::Float(run("9", "1") + ".5"))),
        "fraction" => (format!("x = 5.{}\n", run("9", "1")), one(Expr::Float(s("5.") + &run("9", "1")))),
        "lo name" => (format!("{} = {}\n", run("a", "z"), run("a", "Z")), vec![def(&run("a", "z"), vec![], var(&run("a", "Z")))]),
        "argument name" => (format!("x {} = {}\n", run("a", "_"), run("a", "_")), vec![def("x", vec![var(&run("a", "_"))], var(&run("a", "_")))]),
        "field name" => (format!("x = {{ {} = 1 }}\n", run("b", "9")), one(Expr::Record(vec![(run("b", "9"), int1())]))),
        "up name" => (format!("x = {}\n", run("A", "z")), one(var(&run("A", "z")))),
        "type name" => (format!("x : {}\nx = 1\n", run("A", "9")), vec![sig(con(&run("A", "9")))]),
        "path" => (format!("x = {}\n", ups_t(".")), one(Expr::Variable(ups()))),
        "list" => (format!("x = [{}]\n", los_t(&format!(",{}", sep))), one(Expr::List(vs()))),
        "unit list" => (format!("x = [{}]\n", vec!["()"; n].join(",")), one(Expr::List(vec![Expr::Tuple(vec![]); n]))),
        "tuple" => (format!("x = ({})\n", los_t(&format!(",{}", sep))), one(Expr::Tuple(vs()))),
        "record" => (format!("x = {{ {} }}\n", fields_t("=")), one(Expr::Record(fields()))),
        "update" => (format!("x = {{ r | {} }}\n", fields_t("=")), one(Expr::RecordUpdate(s("r"), fields()))),
        "nested lists" => (format!("x = {}a{}\n", "[".repeat(n), "]".repeat(n)), one((0..n).fold(var("a"), |e, _| Expr::List(vec![e])))),
        "let bindings" => (
            format!("x =\n  let\n{}  in\n    b\n", (0..n).map(|i| format!("    {} = {}\n", lo(i), i)).collect::<String>()),
            one(Expr::Let((0..n).map(|i| LetEntry::LetBinding(v(i), Expr::Integer(i.to_string()))).collect(), Box::new(var("b")))),
        ),
        "let functions" => (
            format!("x =\n  let\n{}  in\n    b\n", (0..n).map(|i| format!("    {} c = {}\n", lo(i), i)).collect::<String>()),
            one(Expr::Let(
                (0..n).map(|i| LetEntry::LetFunction(Function { signature: None, definition: FunctionDefinition { name: lo(i), args: vec![var("c")], body: Expr::Integer(i.to_string()) } })).collect(),
                Box::new(var("b")),
            )),
        ),
        "nested lets" => (
            format!("x = {}1\n", (0..n).map(|i| format!("let {} = 2 in ", lo(i))).collect::<String>()),
            one((0..n).rev().fold(int1(), |e, i| Expr::Let(vec![LetEntry::LetBinding(v(i), Expr::Integer(s("2")))], Box::new(e)))),
        ),
        "branches" => (
            format!("x =\n  case a of\n{}", (0..n).map(|i| format!("    {} -> {}\n", i, lo(i))).collect::<String>()),
            one(Expr::Case(Box::new(var("a")), (0..n).map(|i| (Expr::Integer(i.to_string()), v(i))).collect())),
        ),
        "string branches" => (
            format!("x =\n  case a of\n{}", (0..n).map(|i| format!("    \"{}\" ->\n      {}\n", i, lo(i))).collect::<String>()),
            one(Expr::Case(Box::new(var("a")), (0..n).map(|i| (Expr::String(i.to_string()), v(i))).collect())),
        ),
        "inline cases" => (
            format!("x = {}1\n", (0..n).map(|i| format!("case {} of b -> ", lo(i))).collect::<String>()),
            one((0..n).rev().fold(int1(), |e, i| Expr::Case(Box::new(v(i)), vec![(var("b"), e)]))),
        ),
        "lambda arguments" => (format!("x = \\{} -> 1\n", los_t(" ")), one(Expr::Lambda(vs(), Box::new(int1())))),
        "nested lambdas" => (format!("x = {}1\n", (0..n).map(|i| format!("\\{} -> ", lo(i))).collect::<String>()), one((0..n).rev().fold(int1(), |e, i| Expr::Lambda(vec![v(i)], Box::new(e))))),
        "else ifs" => (
            format!("x = {}1\n", (0..n).map(|i| format!("if {} then b else{}", lo(i), sep)).collect::<String>()),
            one((0..n).rev().fold(int1(), |e, i| Expr::If(Box::new(v(i)), Box::new(var("b")), Box::new(e)))),
        ),
        "type arguments" => (format!("x : B{}{}\nx = 1\n", sep, ups_t(" ")), vec![sig(Type::TypeConstructor(vec![s("B")], cons()))]),
        "type path" => (format!("x : {}\nx = 1\n", ups_t(".")), vec![sig(Type::TypeConstructor(ups(), vec![]))]),
        "type tuple" => (format!("x : ({})\nx = 1\n", ups_t(&format!(",{}", sep))), vec![sig(Type::TypeTuple(cons()))]),
        "record type" => (format!("x : {{ {} }}\nx = 1\n", tfields_t()), vec![sig(Type::TypeRecord(tfields()))]),
        "extended record" => (format!("x : {{ r | {} }}\nx = 1\n", tfields_t()), vec![sig(Type::TypeRecordConstructor(Box::new(Type::TypeVariable(s("r"))), tfields()))]),
        "arrows" => (format!("x : {}\nx = 1\n", ups_t(&format!(" ->{}", sep))), vec![sig(arrows(cons()))]),
        "nested types" => (
            format!("x : {}A{}\nx = 1\n", "B (".repeat(n), ")".repeat(n)),
            vec![sig((0..n).fold(con("A"), |t, _| Type::TypeConstructor(vec![s("B")], vec![t])))],
        ),
        "constructors" => (format!("type B{}= {}\n", sep, ups_t(&format!("{}| ", sep))), vec![Statement::TypeDeclaration(con("B"), cons())]),
        "constructor arguments" => (format!("type B = C {}\n", ups_t(sep)), vec![Statement::TypeDeclaration(con("B"), vec![Type::TypeConstructor(vec![s("C")], cons())])]),
        "type parameters" => (
            format!("type B {}{}= C\n", los_t(" "), sep),
            vec![Statement::TypeDeclaration(Type::TypeConstructor(vec![s("B")], los().into_iter().map(Type::TypeVariable).collect()), vec![con("C")])],
        ),
        "alias record" => (format!("type alias B = {{ {} }}\n", tfields_t()), vec![Statement::TypeAliasDeclaration(con("B"), Type::TypeRecord(tfields()))]),
        "exports" => (
            format!("module M exposing ({})\n", los_t(", ")),
            vec![Statement::ModuleDeclaration(vec![s("M")], ExportSet::SubsetExport(los().into_iter().map(ExportSet::FunctionExport).collect()))],
        ),
        "constructor exports" => (
            format!("module M exposing (T({}))\n", ups_t(", ")),
            vec![Statement::ModuleDeclaration(
                vec![s("M")],
                ExportSet::SubsetExport(vec![ExportSet::TypeExport(s("T"), Some(Box::new(ExportSet::SubsetExport(ups().into_iter().map(ExportSet::FunctionExport).collect()))))]),
            )],
        ),
        "module path" => (format!("module {} exposing (..)\n", ups_t(".")), vec![Statement::ModuleDeclaration(ups(), ExportSet::AllExport)]),
        "effects" => (
            format!("effect module M where {{ {} }} exposing (..)\n", (0..n).map(|i| format!("{} = {}", lo(i), up(i))).collect::<Vec<_>>().join(", ")).replace("{ ", "{").replace(" }", "}"),
            vec![Statement::EffectModuleDeclaration(vec![s("M")], (0..n).map(|i| (lo(i), up(i))).collect(), ExportSet::AllExport)],
        ),
        "import path" => (format!("import {} as B\n", ups_t(".")), vec![Statement::ImportStatement(ups(), Some(s("B")), None)]),
        "import exports" => (
            format!("import M exposing ({})\n", los_t(", ")),
            vec![Statement::ImportStatement(vec![s("M")], None, Some(ExportSet::SubsetExport(los().into_iter().map(ExportSet::FunctionExport).collect())))],
        ),
        "imports" => (
            (0..n).map(|i| format!("import {}\n", up(i))).collect(),
            (0..n).map(|i| Statement::ImportStatement(vec![up(i)], None, None)).collect(),
        ),
        "port arguments" => (format!("port x {} = 1\n", los_t(" ")), vec![Statement::PortDeclaration(s("x"), los(), int1())]),
        "port arrows" => (format!("port x : {}\n", ups_t(&format!(" ->{}", sep))), vec![Statement::PortTypeDeclaration(s("x"), arrows(cons()))]),
        "infixes" => (
            (0..n).map(|i| format!("infixl {} +\n", i)).collect(),
            (0..n).map(|i| Statement::InfixDeclaration(Assoc::L, i as i64, s("+"))).collect(),
        ),
        "line comment" => (format!("--{}\nx = 1\n", run("-", "c")), vec![Statement::Comment(run("-", "c")), def("x", vec![], int1())]),
        "block comment" => (format!("{{-{}-}}\nx = 1\n", run("-", "c")), vec![Statement::Comment(run("-", "c")), def("x", vec![], int1())]),
        "block comment lines" => (format!("{{-{}-}}\nx = 1\n", run("c\n", "\n")), vec![Statement::Comment(run("c\n", "\n")), def("x", vec![], int1())]),
        "comments" => (
            (0..n).map(|i| if i % 2 == 0 { format!("--{}\n", lo(i)) } else { format!("{{-{}-}}\n", lo(i)) }).collect(),
            (0..n).map(|i| Statement::Comment(lo(i))).collect(),
        ),
        "function arguments" => (format!("x {} = 1\n", los_t(" ")), vec![def("x", vs(), int1())]),
        "functions" => (
            (0..n).map(|i| format!("{} = {}\n", lo(i), i)).collect(),
            (0..n).map(|i| def(&lo(i), vec![], Expr::Integer(i.to_string()))).collect(),
        ),
        "signatures" => ("x : A\nx = 1\n\n".repeat(n), vec![sig(con("A")); n]),
        _ => return Ok(()),
    };
    cx.text.push_str(&cut(&text, 300));
    cx.labels.push("extraordinary size");
    cx.nontrivial = true;
    let want = dump_of(&want);
    match parse(&text) {
        Out::Ast { ref rest, ref dump } if rest.is_empty() && *dump == want => Ok(()),
        o => {
            let got = o.show();
            // where they part
            let at = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
            let near = |t: &str| {
                let mut a = at.min(t.len()).saturating_sub(60);
                while !t.is_char_boundary(a) {
                    a -= 1;
                }
                format!("{} (from byte {})", cut(&t[a..], 200), a)
            };
            let small = if text.len() < 20_000 { text.clone() } else { format!("{} of {} ({} bytes): {}", n, kind, text.len(), cut(&text, 300)) };
            fail("something of an extraordinary size is not read as written", &small, &near(&want), &near(&got))
        }
    }
}
