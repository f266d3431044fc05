mod ast;
mod choice;
mod cov;
mod cli;
mod dict;
mod engine;
mod gen;
mod giant;
mod lex;
mod meta;
mod mutate;
mod print;
mod props;
mod reference;

use engine::serde::Json;
use engine::*;
use std::sync::Arc;

#[global_allocator]
static ALLOC: Counter = Counter;

const T: usize = 8;

static PROPS: &[Prop] = &[
    Prop { id: "C01", check: |cx| giant::with(cx, "C01", props::c01, 300, &[], false), quick: 400_000, threads: T, programs: false, rule: "a generated module in a generated layout; non-trivial: at least three kinds of declaration and eight nodes", required: &["module", "port module", "effect module", "import", "type alias", "type", "port signature", "port definition", "function", "infix", "comment", "let", "case", "if", "lambda", "record update", "more than 100 expressions", "extraordinary size"] },
    Prop { id: "C02", check: |cx| giant::with(cx, "C02", props::c02, 300, mutate::LAYOUT, false), quick: 200_000, threads: T, programs: false, rule: "a generated program in a plain and one or two generated layouts; non-trivial: a layout differs and breaks lines at least twice", required: &["re-indented", "comments between tokens", "redundant brackets", "blank lines inside a declaration", "indentation over 20", "extraordinary size"] },
    Prop { id: "C03", check: |cx| giant::with(cx, "C03", props::c03, 500, mutate::LAYOUT, false), quick: 400_000, threads: T, programs: false, rule: "a generated program with the indentation of one line moved out of what its place demands; non-trivial: there was such a line", required: &["must be deeper", "must be as deep", "must line up", "let entry", "case branch", "argument", "in", "then", "else", "function body"] },
    Prop { id: "C04", check: |cx| giant::with(cx, "C04", props::c04, 500, &[], true), quick: 700_000, threads: T, programs: false, rule: "a generated program after one or two random edits; non-trivial: still accepted and different from before", required: &["accepted after an edit", "rejected", "extraordinary size"] },
    Prop { id: "C05", check: |cx| giant::with(cx, "C05", props::c05, 500, &[], true), quick: 400_000, threads: T, programs: false, rule: "a generated program with one to three kinds of damage; non-trivial: malformed by the independent rules", required: &["unterminated literal or comment", "stray character", "unbalanced brackets", "comma without neighbour", "keyword without its partner"] },
    Prop { id: "C06", check: props::c06, quick: 300_000, threads: T, programs: false, rule: "any text: random characters, language pieces in any order, damaged and cut programs, deep and long runs; non-trivial: more than three characters", required: &["accepted", "rejected", "not ASCII", "over 500 bytes", "a text from long before", "after one like it", "in a new thread", "in a new process"] },
    Prop { id: "C07", check: |cx| giant::with(cx, "C07", props::c07, 500, &[], false), quick: 600_000, threads: T, programs: false, rule: "operator expressions (and misuses) in a generated context and layout; non-trivial: has an operator and at least five nodes, or is a misuse", required: &["malformed", "operator as a value", "extraordinary size"] },
    Prop { id: "C08", check: |cx| giant::with(cx, "C08", props::c08, 500, &[], false), quick: 600_000, threads: T, programs: false, rule: "applications and field accesses (and malformed ones) in a generated context and layout; non-trivial: has one and at least four nodes, or is malformed", required: &["malformed", "accessor function", "qualified name", "extraordinary size"] },
    Prop { id: "C09", check: |cx| giant::with(cx, "C09", props::c09, 500, &[], false), quick: 1_000_000, threads: T, programs: false, rule: "literals (and malformed ones) in a generated context; non-trivial: has a literal", required: &["malformed", "character", "string", "integer", "float", "triple quoted", "hexadecimal character", "not ASCII", "extraordinary size"] },
    Prop { id: "C10", check: |cx| giant::with(cx, "C10", props::c10, 500, &[], false), quick: 900_000, threads: T, programs: false, rule: "a name or reserved word in each place a name can be, names of the wrong case, and edited programs; non-trivial: a name was placed, or the edited program was accepted", required: &["reserved word as a name", "begins with a reserved word", "name over 30 characters", "wrong case", "accepted after an edit", "extraordinary size"] },
    Prop { id: "C11", check: |cx| giant::with(cx, "C11", props::c11, 500, &[], false), quick: 500_000, threads: T, programs: false, rule: "lists, tuples, records, updates (and malformed ones) in a generated context and layout; non-trivial: has one and at least four nodes, or is malformed", required: &["malformed", "list", "tuple", "record", "record update", "unit", "extraordinary size"] },
    Prop { id: "C12", check: |cx| giant::with(cx, "C12", props::c12, 500, &[], false), quick: 400_000, threads: T, programs: false, rule: "let expressions (and malformed or misaligned ones) in a generated context and layout; non-trivial: several entries, a function or a pattern, or malformed", required: &["malformed", "entry with a signature", "local function", "destructuring", "several entries", "must line up", "two entries on one line", "extraordinary size"] },
    Prop { id: "C13", check: |cx| giant::with(cx, "C13", props::c13, 500, &[], false), quick: 400_000, threads: T, programs: false, rule: "case expressions (and malformed or misaligned ones) in a generated context and layout; non-trivial: several branches, or malformed", required: &["malformed", "several branches", "case directly in a branch", "must line up", "two entries on one line", "extraordinary size"] },
    Prop { id: "C14", check: |cx| giant::with(cx, "C14", props::c14, 500, &[], false), quick: 500_000, threads: T, programs: false, rule: "if and lambda expressions (and malformed ones) in a generated context and layout; non-trivial: has one and at least five nodes, or is malformed", required: &["malformed", "if", "lambda", "extraordinary size"] },
    Prop { id: "C15", check: |cx| giant::with(cx, "C15", props::c15, 500, &[], false), quick: 800_000, threads: T, programs: false, rule: "types (and malformed ones) in signatures, ports and aliases in a generated layout; non-trivial: at least three nodes, or malformed", required: &["malformed", "type variable", "type name", "type with arguments", "record type", "extensible record type", "unit type", "tuple type", "function type", "extraordinary size"] },
    Prop { id: "C16", check: |cx| giant::with(cx, "C16", props::c16, 500, &[], false), quick: 700_000, threads: T, programs: false, rule: "type and type alias declarations (and malformed ones) in a generated layout; non-trivial: at least four type nodes, or malformed", required: &["malformed", "type alias", "type", "several constructors", "more than 12 constructors", "type parameters", "extraordinary size"] },
    Prop { id: "C17", check: |cx| giant::with(cx, "C17", props::c17, 500, &[], false), quick: 900_000, threads: T, programs: false, rule: "module declarations (and malformed ones) in a generated layout; non-trivial: at least three names, or malformed", required: &["malformed", "module", "port module", "effect module", "operator exposed", "type with some constructors exposed", "more than 12 names exposed", "extraordinary size"] },
    Prop { id: "C18", check: |cx| giant::with(cx, "C18", props::c18, 500, &[], false), quick: 700_000, threads: T, programs: false, rule: "imports (and malformed ones) in a generated layout; non-trivial: at least three names, or malformed", required: &["malformed", "alias", "alias and exposing", "dotted module name", "everything exposed", "operator exposed", "extraordinary size"] },
    Prop { id: "C19", check: |cx| giant::with(cx, "C19", props::c19, 500, &[], false), quick: 800_000, threads: T, programs: false, rule: "port and fixity declarations (and malformed ones) in a generated layout; non-trivial: a fixity declaration, at least three nodes, or malformed", required: &["malformed", "port definition", "port arguments", "port signature", "infixl", "infixr", "infix", "precedence over 32 bits", "extraordinary size"] },
    Prop { id: "C20", check: |cx| giant::with(cx, "C20", props::c20, 500, &[], false), quick: 700_000, threads: T, programs: false, rule: "comments as declarations and between tokens (and malformed ones); non-trivial: a comment longer than two characters, or between tokens, or malformed", required: &["malformed", "comment over several lines", "comment with a delimiter in it", "comment ends the file", "comments between tokens", "extraordinary size"] },
    Prop { id: "C21", check: |cx| giant::with(cx, "C21", props::c21, 500, &[], false), quick: 500_000, threads: T, programs: false, rule: "function definitions (and malformed ones) in a generated layout; non-trivial: has a signature or arguments, or malformed", required: &["malformed", "signature", "arguments", "operator definition", "pattern argument", "several definitions", "extraordinary size"] },
    Prop { id: "C22", check: cli::c22, quick: 10_000, threads: T, programs: true, rule: "a generated directory tree or file given to the dump tool; non-trivial: at least two .elm files, or a whole AST compared", required: &["directory", "single file", "accepted", "rejected", "other files", "nested directories", "full output", "quiet output", "link to a file", "link to a directory"] },
    Prop { id: "C23", check: cli::c23, quick: 20_000, threads: T, programs: true, rule: "a generated file given to the check tool; non-trivial: at least two exposed names, or a rejected file", required: &["accepted", "rejected", "values", "types", "operators", "several imports"] },
    Prop { id: "C24", check: props::c24, quick: 150_000, threads: T, programs: false, rule: "a text built from repeated constructs at two sizes; every case is non-trivial", required: &["nested expressions", "nested types", "nested patterns", "long", "damaged", "something after every level", "accepted", "generated expressions", "generated patterns", "generated types"] },
    Prop { id: "C25", check: |cx| giant::with(cx, "C25", props::c25, 300, &[], false), quick: 250_000, threads: T, programs: false, rule: "two to six generated parts, parsed alone and joined in some order; every case is non-trivial", required: &["more than 4 parts", "extraordinary size"] },
    Prop { id: "C26", check: meta::c26, quick: 700_000, threads: T, programs: false, rule: "a generated program, often edited, and the same with names, numbers, strings, characters and comments exchanged; non-trivial: the texts differ and at least two names occur", required: &["accepted", "rejected", "accepted after an edit", "numbers exchanged", "strings exchanged", "comments exchanged"] },
    Prop { id: "C27", check: meta::c27, quick: 900_000, threads: T, programs: false, rule: "a generated program with a bracketed expression or type, often edited, put in the place of some leaf; non-trivial: the expression is longer than two characters", required: &["accepted", "rejected", "type", "expression"] },
    Prop { id: "C28", check: cli::c28, quick: 40_000, threads: T, programs: true, rule: "an input that cannot be read, an output that cannot be written or wrong arguments, given to one of the tools; every case is non-trivial", required: &["not UTF-8", "not UTF-8 in a directory", "no such file", "directory to check", "unreadable directory", "unreadable in a directory", "output cannot be written", "wrong arguments"] },
];

fn arg(a: &[String], name: &str) -> Option<String> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = real_main(&a);
    std::process::exit(code);
}

fn real_main(a: &[String]) -> i32 {
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let id = a.get(2).cloned().unwrap_or_default();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string());
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".to_string());
    let bins = std::env::var("VERIF_BINS").unwrap_or_default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    if cmd == "list" {
        for p in PROPS {
            println!("{}", p.id);
        }
        return 0;
    }
    // what a process that parsed nothing before makes of a text
    if cmd == "parse" {
        quiet_panics();
        let t = std::fs::read_to_string(&id).unwrap_or_default();
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || parse(&t).show()).unwrap();
        return match h.join() {
            Ok(s) => {
                print!("{}", s);
                0
            }
            Err(_) => 4,
        };
    }
    if cmd == "baseline" {
        print!("{}", dict::baseline(&format!("{}/src", repo)));
        return 0;
    }
    let prop: &'static Prop = match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let scratch = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| format!("/tmp/elm-parser-verif.{}", std::process::id()));
    let opts = Arc::new(Opts { seed, thorough, scale, out: root.clone(), bins, scratch: scratch.clone() });
    let dict = Arc::new(dict::harvest(&format!("{}/src", repo)));
    quiet_panics();
    match cmd {
        // the whole check: runs the search in a child so that a crash of the parser is a result too
        "check" => {
            let _ = std::fs::create_dir_all(&scratch);
            let r = check(prop, &opts, &dict, &root, &scratch);
            let _ = std::fs::remove_dir_all(&scratch);
            r
        }
        "search" => search(prop, &opts, &dict, &root, &scratch),
        // one case, by number: exit 0 passes, 1 fails, anything else a crash
        "case" => {
            let n: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
            if let Some(p) = arg(a, "--trace") {
                trace_to(&p);
            }
            let choices: Option<Vec<u64>> =
                arg(a, "--choices").and_then(|f| std::fs::read_to_string(f).ok()).map(|c| c.split_whitespace().filter_map(|x| x.parse().ok()).collect());
            let (d, o) = (dict.clone(), opts.clone());
            let h = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    register();
                    let mut src = match choices {
                        Some(c) => choice::Src::guided(c, case_seed(o.seed, prop.id, n)),
                        None => choice::Src::random(case_seed(o.seed, prop.id, n)),
                    };
                    let mut info = None;
                    one(prop, &mut src, &d, &o, "case", &mut info).is_err()
                })
                .unwrap();
            h.join().map(|f| if f { 1 } else { 0 }).unwrap_or(4)
        }
        "replay" => replay(prop, &opts, &dict, a.get(3).map(|s| s.as_str()).unwrap_or("")),
        _ => {
            eprintln!("usage: harness check|search|case|replay ID ...");
            2
        }
    }
}

fn replay_path(root: &str, id: &str) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    format!("{}/{}.json", dir, id)
}

fn write_replay(root: &str, id: &str, seed: u64, case: u64, choices: &[u64], random_tail: bool, f: &Fail, evals: usize) -> String {
    let p = replay_path(root, id);
    let j = Json::obj(vec![
        ("property", Json::Str(id.to_string())),
        ("what", Json::Str(f.what.clone())),
        ("source", Json::Str(f.source.clone())),
        ("expected", Json::Str(f.expected.clone())),
        ("actual", Json::Str(f.actual.clone())),
        ("seed", Json::Str(seed.to_string())),
        ("case", Json::Str(case.to_string())),
        ("choices", Json::Str(choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "))),
        ("after_the_choices", Json::Str(if random_tail { "random" } else { "zeros" }.to_string())),
        ("shrink_evaluations", Json::Num(evals as f64)),
        ("run", Json::Str(format!("bash check.sh {} replay {}", id, p))),
    ]);
    let _ = std::fs::write(&p, j.show());
    p
}

fn report(f: &Fail) {
    println!("{}", f.what);
    println!("--- source\n{}", cut(&f.source, 2000));
    println!("--- expected\n{}", cut(&f.expected, 1500));
    println!("--- actual\n{}", cut(&f.actual, 1500));
}

fn search(p: &'static Prop, o: &Arc<Opts>, d: &Arc<dict::Dict>, root: &str, scratch: &str) -> i32 {
    let (verdict, ev) = run(p, d, o, Some(&format!("{}/state", scratch)));
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    if let Verdict::Error(e) = &verdict {
        eprintln!("ERROR {}", e);
        return 3;
    }
    if std::fs::write(format!("{}/{}.json", dir, p.id), ev.show()).is_err() {
        return 3;
    }
    match verdict {
        Verdict::Pass => 0,
        Verdict::Violation(case, choices, f) => {
            // a case that does not end is not shrunk
            let stuck = choices.is_empty();
            let (c, f, n) = if stuck { (engine::STUCK.lock().unwrap().clone(), f, 0) } else { shrink(p, d, o, choices, f) };
            let path = write_replay(root, p.id, o.seed, case, &c, stuck, &f, n);
            report(&f);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        Verdict::Error(_) => 3,
    }
}

fn check(p: &'static Prop, o: &Arc<Opts>, d: &Arc<dict::Dict>, root: &str, scratch: &str) -> i32 {
    // the harness itself: what it prints must be what it reads back, with no parser involved
    if let Err(e) = self_test(d) {
        eprintln!("SELF TEST {}", e);
        return 5;
    }
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).args(&["search", p.id]).env("VERIF_SCRATCH", scratch).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}", e);
            return 3;
        }
    };
    if let Some(c) = st.code() {
        if c == 0 {
            known(p.id, o, root, scratch);
        }
        return c;
    }
    // the search died of a signal: find the case that did it
    eprintln!("the search process died: {:?}", st);
    let state = std::fs::read(format!("{}/state", scratch)).unwrap_or_default();
    let word = |at: usize| -> u64 { state.get(at..at + 8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).unwrap_or(0) };
    let mut cases: Vec<(u64, Option<Vec<u64>>)> = (0..engine::MAXT)
        .filter(|th| word(th * 8) > 0)
        .map(|th| {
            // the choices are there once the thread varies cases
            let at = engine::STATE_CHOICES + th * engine::STATE_STEP;
            let n = word(at) as usize;
            let c = if at + 8 <= state.len() && n > 0 { Some((0..n).map(|i| word(at + 8 + i * 8)).collect()) } else { None };
            (word(th * 8) - 1, c)
        })
        .collect();
    cases.sort();
    for (c, choices) in cases {
        let trace = format!("{}/trace", scratch);
        let mut args = vec!["case".to_string(), p.id.to_string(), c.to_string(), "--trace".to_string(), trace.clone()];
        if let Some(c) = &choices {
            let file = format!("{}/choices", scratch);
            let _ = std::fs::write(&file, c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
            args.push("--choices".to_string());
            args.push(file);
        }
        let st = std::process::Command::new(&exe).args(&args).env("VERIF_SCRATCH", scratch).status();
        if let Ok(s) = st {
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = s.signal() {
                if sig == 9 || sig == 15 {
                    continue; // ended from outside
                }
                let text = std::fs::read(&trace).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
                let f = Fail {
                    what: format!("parsing crashed the process (signal {})", sig),
                    source: text,
                    expected: "an AST or an error".to_string(),
                    actual: format!("signal {}", sig),
                };
                let path = write_replay(root, p.id, o.seed, c, &choices.unwrap_or_default(), true, &f, 0);
                report(&f);
                println!("VIOLATION property={} replay={}", p.id, path);
                return 1;
            }
        }
    }
    3
}

/// Findings listed in known-findings.txt are shown while they still fail.
fn known(id: &str, o: &Arc<Opts>, root: &str, scratch: &str) {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    for l in t.lines() {
        let f: Vec<&str> = l.splitn(4, '\t').collect();
        if f.len() == 4 && f[0] == "known:" && f[1] == format!("property={}", id) {
            if cli::still_fails(f[2], o, scratch) {
                println!("KNOWN-FINDING: property={} {}", id, f[3]);
            }
        }
    }
}

fn replay(p: &'static Prop, o: &Arc<Opts>, d: &Arc<dict::Dict>, path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let j = match Json::read(&t) {
        Some(j) => j,
        None => return 2,
    };
    let choices: Vec<u64> = j.get("choices").map(|c| c.str().split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let seed: u64 = j.get("seed").and_then(|s| s.str().parse().ok()).unwrap_or(1);
    let case: u64 = j.get("case").and_then(|s| s.str().parse().ok()).unwrap_or(0);
    let tail = choices.is_empty() || j.get("after_the_choices").map(|t| t.str() == "random").unwrap_or(false);
    let (d, o, path) = (d.clone(), o.clone(), path.to_string());
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            register();
            let mut src = if tail { choice::Src::guided(choices, case_seed(seed, p.id, case)) } else { choice::Src::replay(&choices) };
            let mut info = None;
            match one(p, &mut src, &d, &o, "replay", &mut info) {
                Ok(()) => {
                    println!("passes");
                    0
                }
                Err(f) => {
                    report(&f);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    1
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(4)
}

fn self_test(d: &Arc<dict::Dict>) -> Result<(), String> {
    for case in 0..400u64 {
        let mut src = choice::Src::random(choice::mix(99, case));
        let stmts = gen::Gen::new(&mut src, d).module();
        let t = format!("{:?}", stmts);
        let back = ast::from_debug(&t)?;
        if back != stmts {
            return Err(format!("the dump of a generated AST is not read back: {}", t));
        }
        let t = format!("{:#?}", stmts);
        let back = ast::from_debug(&t)?;
        if back != stmts {
            return Err(format!("the dump of a generated AST is not read back: {}", t));
        }
        let st = print::Style::draw(&mut src);
        let p = print::print_module(&stmts, &mut src, st, &[]);
        let l = lex::lex(&p.text);
        if !l.ambiguous {
            if let Some(m) = lex::malformed(&l) {
                return Err(format!("a generated text is malformed ({}): {}", m, p.text));
            }
            let l2 = lex::lex(&print::print_canonical(&stmts));
            if !l2.ambiguous && lex::content(&l) != lex::content(&l2) {
                return Err(format!("two layouts differ in content: {}", p.text));
            }
        }
    }
    Ok(())
}
