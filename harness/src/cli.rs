//! The two command line tools, run as programs on generated files in a scratch directory.

use crate::ast::*;
use crate::engine::*;
use crate::gen::Gen;
use crate::mutate::{mutate, soup};
use crate::print::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Ran {
    out: String,
    err: String,
    code: Option<i32>,
    signal: Option<i32>,
    ended: bool,
}

impl Ran {
    fn show(&self) -> String {
        format!("exit status {:?}, signal {:?}\n{}\n{}", self.code, self.signal, self.out, cut(&self.err, 500))
    }
}

fn run_tool(bin: &str, args: &[String], cwd: &Path, scratch: &Path) -> Ran {
    run_tool_to(bin, args, cwd, scratch, false)
}

/// `full`: nothing can be written to its standard output.
fn run_tool_to(bin: &str, args: &[String], cwd: &Path, scratch: &Path, full: bool) -> Ran {
    use std::os::unix::process::ExitStatusExt;
    let (o, e) = (scratch.join("stdout"), scratch.join("stderr"));
    let of = if full { std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full") } else { std::fs::File::create(&o).expect("scratch file") };
    let ef = std::fs::File::create(&e).expect("scratch file");
    let mut ch = Command::new(bin).env("RUST_BACKTRACE", "0").args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::from(of)).stderr(Stdio::from(ef)).spawn().expect("start the tool");
    let t = Instant::now();
    let mut wait = 100;
    let mut st = None;
    while t.elapsed() < Duration::from_secs(120) {
        if let Ok(Some(s)) = ch.try_wait() {
            st = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_micros(wait));
        wait = (wait * 3 / 2).min(5000);
    }
    if st.is_none() {
        let _ = ch.kill();
        let _ = ch.wait();
    }
    let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    Ran { out: if full { String::new() } else { read(&o) }, err: read(&e), code: st.and_then(|s| s.code()), signal: st.and_then(|s| s.signal()), ended: st.is_some() }
}

/// A process that parsed nothing before must make the same of a text.
pub fn in_new_process(cx: &mut Ctx, text: &str, a: &Out) -> Result<(), Fail> {
    let s = Scratch::new(&cx.scratch.clone());
    let f = s.0.join("in").join("text");
    std::fs::write(&f, text).expect("scratch file");
    let exe = std::env::current_exe().expect("the harness").to_string_lossy().to_string();
    let r = run_tool(&exe, &["parse".to_string(), f.to_string_lossy().to_string()], &s.0, &s.0);
    cx.labels.push("in a new process");
    if r.code != Some(0) || r.out != a.show() {
        return fail("a text gives another result in a process where nothing was parsed before", text, &r.show(), &a.show());
    }
    Ok(())
}

/// A directory of the check's own, gone when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new(p: &str) -> Scratch {
        let p = PathBuf::from(p);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(p.join("in")).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Content {
    text: String,
    /// None: rejected
    ast: Option<Vec<Statement>>,
}

fn by_library(text: String) -> Result<Content, Fail> {
    let ast = match parse(&text) {
        Out::Ast { ref rest, ref dump } if rest.is_empty() => match from_debug(dump) {
            Ok(s) => Some(s),
            Err(e) => return fail(&format!("the AST cannot be read: {}", e), &text, "an AST", dump),
        },
        Out::Ast { ref dump, .. } => return fail("part of the text was left unread", &text, "all read, or rejected", dump),
        _ => None,
    };
    Ok(Content { text, ast })
}

fn valid(cx: &mut Ctx, imports: usize) -> Content {
    let stmts = {
        let mut g = Gen::new(cx.src, cx.d);
        g.fuel = g.fuel.min(40);
        g.max_depth = 8;
        let mut v = vec![];
        if imports > 0 {
            let k = g.size(0, imports, 40);
            for _ in 0..k {
                v.push(g.import());
            }
        }
        let mut m = g.module();
        if g.src.chance(300) {
            m.truncate(1);
        }
        // imports anywhere among the other declarations
        for i in v {
            let at = g.src.range(0, m.len());
            m.insert(at, i);
        }
        m
    };
    let st = Style::draw(cx.src);
    let p = print_module(&stmts, cx.src, st, &[]);
    Content { text: p.text, ast: Some(stmts) }
}

fn content(cx: &mut Ctx) -> Result<Content, Fail> {
    match cx.src.weighted(&[50, 20, 8, 4, 4, 6, 4]) {
        0 => Ok(valid(cx, 0)),
        1 => {
            let v = valid(cx, 0);
            let mut t = mutate(&v.text, cx.src, cx.d);
            if cx.src.chance(300) {
                t = mutate(&t, cx.src, cx.d);
            }
            by_library(t)
        }
        2 => {
            let t = soup(cx.src, cx.d);
            by_library(t)
        }
        3 => by_library(String::new()),
        4 => {
            // a small text with something before or after it
            let v = valid(cx, 0);
            let (a, b) = (*cx.src.pick(&["", "\u{feff}", "\n", " ", "\n\n"]), *cx.src.pick(&["\n", " ", "\n  \n", "\u{0}", "\u{1a}", "\n)", "x"]));
            by_library(format!("{}{}{}", a, v.text, b))
        }
        5 => {
            // a long text, which may be wrong at its very end
            let mut v = valid(cx, 0);
            if !v.text.ends_with('\n') {
                v.text.push('\n');
            }
            let n = cx.src.range(1, 300) * 1024 + cx.src.range(0, 3) - 1;
            let line = if cx.src.chance(500) { "z" } else { "é" };
            if cx.src.chance(500) {
                let c: String = line.repeat(n / line.len());
                v.text.push_str(&format!("\n{{-{}-}}\n", c));
                v.ast.as_mut().unwrap().push(Statement::Comment(c));
            } else {
                // in lines
                for _ in 0..n / 400 {
                    let c: String = line.repeat(300 / line.len());
                    v.text.push_str(&format!("\n--{}\n", c));
                    v.ast.as_mut().unwrap().push(Statement::Comment(c));
                }
            }
            if cx.src.chance(500) {
                v.text.push_str("\nzz = )\n");
                v.ast = None;
            }
            Ok(v)
        }
        _ => {
            let v = valid(cx, 0);
            let t = crate::mutate::mutate(&format!("{}{}", v.text, v.text), cx.src, cx.d);
            by_library(t)
        }
    }
}

fn base_name(cx: &mut Ctx) -> String {
    if cx.d.hot && cx.src.chance(100) && !cx.d.texts.is_empty() {
        let s = cx.src.pick(&cx.d.texts).replace(&['/', '\0'][..], "");
        if !s.is_empty() {
            return s;
        }
    }
    match cx.src.weighted(&[60, 20, 20]) {
        0 => cx.src.pick(&["Main", "A", "Page", "Route", "b", "Types"]).to_string(),
        1 => cx
            .src
            .pick(&["With Space", "x.y", "Ünï", "-q", "--quiet", "it's", "q\"uote", "back\\slash", "new\nline", ".hidden", ".", "elm", "tests", "node_modules", "elm-stuff", "日本", "a.elm", "_", "~", "#", "$HOME", "*", "{}", "tab\t"])
            .to_string(),
        _ => {
            let mut g = Gen::new(cx.src, cx.d);
            let mut s = g.up();
            s.truncate(60);
            s
        }
    }
}

fn ext(cx: &mut Ctx) -> &'static str {
    match cx.src.weighted(&[70, 30]) {
        0 => ".elm",
        _ => *cx.src.pick(&["", ".ELM", ".Elm", ".elm.bak", ".elmx", ".elm~", ".txt", ".json", ".xelm", ".el", ".elm.elm", "elm", ".js", ".elm.", ".elm.txt"]),
    }
}

fn is_elm(name: &str) -> bool {
    name.len() > 4 && name.ends_with(".elm")
}

/// The outputs of several files run together, taken apart: an entry of the output starts and ends
/// with a line that is not indented.
fn blocks(out: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for l in out.lines() {
        let first = cur.is_empty();
        cur.push_str(l);
        cur.push('\n');
        let inner = l.starts_with(' ');
        let opens = first && (l.ends_with('[') || l.ends_with('(') || l.ends_with('{'));
        if !inner && !opens {
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

pub fn c22(cx: &mut Ctx) -> Result<(), Fail> {
    let s = Scratch::new(&cx.scratch.clone());
    let root = s.0.join("in");
    let bin = format!("{}/elm-parser-dump", cx.bins);
    let single = cx.src.chance(300);
    let quiet = cx.src.chance(600);
    // the tree
    let mut dirs: Vec<PathBuf> = vec![PathBuf::new()];
    let mut files: Vec<(PathBuf, Content)> = vec![];
    if !single {
        let n = match cx.src.weighted(&[70, 25, 5]) {
            0 => cx.src.range(0, 3),
            1 => cx.src.range(2, 10),
            _ => cx.src.range(5, 40),
        };
        let deep = cx.src.chance(200);
        for _ in 0..n {
            let at = if deep { dirs.len() - 1 } else { cx.src.below(dirs.len()) };
            let mut name = base_name(cx);
            if cx.src.chance(100) {
                name.push_str(".elm");
            }
            if name == "." || name == ".." {
                name.push('d');
            }
            let p = dirs[at].join(name);
            if !dirs.contains(&p) && p.as_os_str().len() < 1500 {
                dirs.push(p);
            }
        }
    }
    let n = if single {
        1
    } else {
        match cx.src.weighted(&[70, 20, 6, 4]) {
            0 => cx.src.range(0, 5),
            1 => cx.src.range(4, 14),
            2 => cx.src.range(10, 60),
            _ => 0,
        }
    };
    let many = n > 14;
    let shared = if many { Some((content(cx)?, content(cx)?)) } else { None };
    for _ in 0..n {
        let at = cx.src.below(dirs.len());
        let mut name = base_name(cx);
        name.push_str(ext(cx));
        if name.chars().all(|c| c == '.') {
            name.push('f');
        }
        let p = dirs[at].join(&name);
        if dirs.contains(&p) || files.iter().any(|f| f.0 == p) {
            continue;
        }
        let c = match &shared {
            Some((a, b)) => {
                let x = if cx.src.chance(500) { a } else { b };
                Content { text: x.text.clone(), ast: x.ast.clone() }
            }
            None => content(cx)?,
        };
        files.push((p, c));
    }
    let mut what = String::new();
    for d in &dirs {
        std::fs::create_dir_all(root.join(d)).expect("directory");
        what.push_str(&format!("directory {:?}\n", d));
    }
    for (p, c) in &files {
        std::fs::write(root.join(p), &c.text).expect("file");
        what.push_str(&format!("file {:?} {}:\n{}\n", p, if c.ast.is_some() { "accepted" } else { "rejected" }, c.text));
        cx.labels.push(if c.ast.is_some() { "accepted" } else { "rejected" });
        if !is_elm(&p.file_name().unwrap().to_string_lossy()) {
            cx.labels.push("other files");
        }
    }
    // links: to a file, they are files; to a directory, they are not entered
    if !single && cx.src.chance(250) {
        let n = cx.src.range(1, 3);
        let real = files.len();
        for _ in 0..n {
            let at = cx.src.below(dirs.len());
            let mut name = base_name(cx);
            name.push_str(ext(cx));
            if name.chars().all(|c| c == '.') {
                name.push('f');
            }
            let p = dirs[at].join(&name);
            if dirs.contains(&p) || files.iter().any(|f| f.0 == p) || std::fs::symlink_metadata(root.join(&p)).is_ok() {
                continue;
            }
            let target = if real > 0 && cx.src.chance(500) {
                let i = cx.src.below(real);
                let c = Content { text: files[i].1.text.clone(), ast: files[i].1.ast.clone() };
                let t = files[i].0.clone();
                files.push((p.clone(), c));
                cx.labels.push("link to a file");
                t
            } else {
                cx.labels.push("link to a directory");
                dirs[cx.src.below(dirs.len())].clone()
            };
            std::os::unix::fs::symlink(root.join(&target), root.join(&p)).expect("link");
            what.push_str(&format!("link {:?} to {:?}\n", p, target));
        }
    }
    if dirs.len() > 2 {
        cx.labels.push("nested directories");
    }
    cx.labels.push(if single { "single file" } else { "directory" });
    cx.labels.push(if quiet { "quiet output" } else { "full output" });
    // the argument
    let rel = if single {
        match files.first() {
            Some(f) => f.0.clone(),
            None => return Ok(()),
        }
    } else if cx.src.chance(700) {
        PathBuf::new()
    } else {
        let i = cx.src.below(dirs.len());
        dirs[i].clone()
    };
    let base = match cx.src.below(3) {
        0 => root.join(&rel),
        1 if !single => Path::new(".").join(&rel),
        1 => Path::new(".").join(&rel),
        _ => {
            if rel.as_os_str().is_empty() || rel.to_string_lossy().starts_with('-') {
                PathBuf::from(".")
                    .join(&rel)
            } else {
                rel.clone()
            }
        }
    };
    let mut arg = base.to_string_lossy().to_string();
    while arg.ends_with('/') {
        arg.pop(); // joining an empty path
    }
    if !single && cx.src.chance(200) {
        arg.push('/');
    }
    let mut args = vec![arg.clone()];
    if quiet {
        let q = cx.src.pick(&["-q", "--quiet"]).to_string();
        if cx.src.chance(500) {
            args.insert(0, q);
        } else {
            args.push(q);
        }
    }
    what.push_str(&format!("elm-parser-dump {:?}\n", args));
    cx.text.push_str(&what);
    let r = run_tool(&bin, &args, &root, &s.0);
    if !r.ended {
        return fail("the dump tool does not end", &what, "it ends", &r.show());
    }
    if r.code != Some(0) {
        return fail("the dump tool did not end normally", &what, "exit status 0", &r.show());
    }
    // what it should have said
    let mut picked: Vec<(String, &Content)> = vec![];
    for (p, c) in &files {
        if single {
            picked.push((arg.clone(), c));
        } else if is_elm(&p.file_name().unwrap().to_string_lossy()) {
            if let Ok(below) = p.strip_prefix(&rel) {
                picked.push((Path::new(&arg).join(below).to_string_lossy().to_string(), c));
            }
        }
    }
    if quiet {
        let mut want: Vec<String> = picked
            .iter()
            .map(|(n, c)| format!("{:?} {}", n, if c.ast.is_some() { "parsed successfully" } else { "failed to parse" }))
            .collect();
        let mut got: Vec<String> = r.out.lines().map(|l| l.to_string()).collect();
        want.sort();
        got.sort();
        if want != got {
            return fail("the dump tool's summary is wrong", &what, &want.join("\n"), &r.out);
        }
        cx.nontrivial = want.len() > 1;
    } else {
        let mut want: Vec<String> = picked.iter().filter_map(|(_, c)| c.ast.as_ref().map(|a| format!("{:#?}\n", a))).collect();
        let failed = picked.len() - want.len();
        let got = blocks(&r.out);
        let mut asts: Vec<String> = got.iter().filter(|b| b.starts_with('[')).cloned().collect();
        want.sort();
        asts.sort();
        if want != asts {
            return fail("the dump tool's output is not the AST of the accepted files", &what, &want.join("---\n"), &r.out);
        }
        let bad = got.iter().filter(|b| !b.starts_with('[')).count();
        if (bad == 0) != (failed == 0) {
            return fail("the dump tool does not report the files it rejects", &what, &format!("{} errors", failed), &r.out);
        }
        cx.nontrivial = !want.is_empty();
    }
    Ok(())
}

/// An import put in front, and in its exposing list things that may or may not be taken for names:
/// what is to be listed for them is what the library makes of them.
fn odd_exposed(text: &str, cx: &mut Ctx) -> String {
    let n = cx.src.range(1, 4);
    let items: Vec<String> = (0..n)
        .map(|_| cx.src.pick(&["_", "_a", "__", "a_", "a", "b1", "T", "T(..)", "(+)", "( + )", "(a)", "..", "a'", "_1", "é", "if", "+", ""]).to_string())
        .collect();
    let line = format!("import {} exposing ({})\n", cx.src.pick(&["A", "A.B", "_"]), items.join(", "));
    if cx.src.chance(500) {
        line
    } else {
        format!("{}{}", line, text)
    }
}

pub fn c23(cx: &mut Ctx) -> Result<(), Fail> {
    let s = Scratch::new(&cx.scratch.clone());
    let root = s.0.join("in");
    let bin = format!("{}/elm-parser-check", cx.bins);
    let c = match cx.src.weighted(&[70, 12, 18]) {
        0 => valid(cx, 4),
        1 => {
            let v = valid(cx, 4);
            let t = if cx.src.chance(300) {
                odd_exposed(&v.text, cx)
            } else {
                mutate(&v.text, cx.src, cx.d)
            };
            by_library(t)?
        }
        _ => content(cx)?,
    };
    let mut name = base_name(cx);
    name.push_str(ext(cx));
    if name.chars().all(|c| c == '.') {
        name.push('f');
    }
    let f = root.join(&name);
    std::fs::write(&f, &c.text).expect("file");
    let arg = if cx.src.chance(500) { f.to_string_lossy().to_string() } else { name };
    let what = format!("elm-parser-check {:?}\n{}", arg, c.text);
    cx.text.push_str(&what);
    let r = run_tool(&bin, &[arg], &root, &s.0);
    if !r.ended {
        return fail("the check tool does not end", &what, "it ends", &r.show());
    }
    if r.code != Some(0) {
        return fail("the check tool did not end normally", &what, "exit status 0", &r.show());
    }
    match &c.ast {
        None => {
            cx.labels.push("rejected");
            cx.nontrivial = true;
            if r.out.trim().is_empty() || r.out.starts_with('[') {
                return fail("the check tool lists names for a file that is not valid", &what, "an error", &r.out);
            }
        }
        Some(stmts) => {
            cx.labels.push("accepted");
            let mut names: Vec<String> = vec![];
            let mut imports = 0;
            for st in stmts {
                if let Statement::ImportStatement(_, _, ex) = st {
                    imports += 1;
                    if let Some(ExportSet::SubsetExport(items)) = ex {
                        for i in items {
                            match i {
                                ExportSet::FunctionExport(n) => {
                                    if n.chars().next().map(|c| c.is_alphabetic() || c == '_').unwrap_or(false) {
                                        cx.labels.push("values");
                                    } else {
                                        cx.labels.push("operators");
                                    }
                                    names.push(n.clone());
                                }
                                _ => cx.labels.push("types"),
                            }
                        }
                    }
                }
            }
            if imports > 1 {
                cx.labels.push("several imports");
            }
            let want = format!("{:#?}\n", names);
            if r.out != want {
                return fail("the check tool does not list the names the imports expose", &what, &want, &r.out);
            }
            cx.nontrivial = names.len() > 1;
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C28

/// Bytes that no UTF-8 text contains.
const NOT_UTF8: &[&[u8]] = &[
    &[0xff],
    &[0xfe],
    &[0x80],
    &[0xbf],
    &[0xc3],
    &[0xc0, 0x80],
    &[0xc1, 0xbf],
    &[0xe2, 0x82],
    &[0xe0, 0x80, 0x80],
    &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf],
    &[0xf0, 0x9f, 0x98],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xf8, 0x88, 0x80, 0x80, 0x80],
    &[0xff, 0xfe, 0x61, 0x00],
    &[0xe9],
];

/// A text with such bytes in it somewhere: anywhere, at an end, in a string or in a comment.
fn not_utf8(cx: &mut Ctx) -> Vec<u8> {
    let text = match cx.src.below(6) {
        0 => String::new(),
        1 => "x = 1\n--\n".to_string(),
        2 => "x = \"\"\n".to_string(),
        3 => "{--}\n".to_string(),
        _ => valid(cx, 2).text,
    };
    let bad = *cx.src.pick(NOT_UTF8);
    let l = crate::lex::lex(&text);
    let inside: Vec<usize> = l
        .toks
        .iter()
        .filter_map(|(t, a, b)| match t {
            crate::lex::Tok::Str(_) => Some(a + 1),
            crate::lex::Tok::LineComment(_) => Some(*b),
            crate::lex::Tok::BlockComment(_) => Some(a + 2),
            _ => None,
        })
        .collect();
    let mut at = match cx.src.below(5) {
        0 => 0,
        1 => text.len(),
        2 if !inside.is_empty() => *cx.src.pick(&inside),
        _ => cx.src.range(0, text.len()),
    };
    while !text.is_char_boundary(at) {
        at += 1;
    }
    let mut v = text.as_bytes()[..at].to_vec();
    v.extend_from_slice(bad);
    v.extend_from_slice(&text.as_bytes()[at..]);
    v
}

/// A directory whose path is too long to be opened, below `root`; the path of its beginning.
fn too_deep(root: &Path, with_file: bool) -> std::io::Result<()> {
    // two long chains, one moved to the end of the other
    let part = "d".repeat(200);
    let chain = |from: &Path| -> std::io::Result<PathBuf> {
        let mut p = from.to_path_buf();
        for _ in 0..14 {
            p.push(&part);
        }
        std::fs::create_dir_all(&p)?;
        Ok(p)
    };
    let a = chain(root)?;
    let b = root.with_file_name("chain");
    let end = chain(&b)?;
    if with_file {
        std::fs::write(end.join("Deep.elm"), "x = 1\n")?;
    }
    std::fs::rename(&b, a.join("more"))
}

pub fn c28(cx: &mut Ctx) -> Result<(), Fail> {
    let s = Scratch::new(&cx.scratch.clone());
    let root = s.0.join("in");
    let dump = format!("{}/elm-parser-dump", cx.bins);
    let check = format!("{}/elm-parser-check", cx.bins);
    let q = cx.src.pick(&["-q", "--quiet"]).to_string();
    let quiet = cx.src.chance(500);
    let mut name = base_name(cx);
    if name.starts_with('-') || name.chars().all(|c| c == '.') {
        name = "odd".to_string();
    }
    name.push_str(ext(cx));
    let mut what = String::new();
    // what lies about, and can be read
    let mut good: Vec<(String, bool)> = vec![];
    let mut lay = |cx: &mut Ctx, what: &mut String, dir: &str| -> Result<(), Fail> {
        let n = cx.src.range(0, 3);
        for i in 0..n {
            let c = content(cx)?;
            if c.text.len() > 5000 {
                continue;
            }
            let f = format!("{}{}{}.elm", dir, cx.src.pick(&["A", "m", "zz"]), i);
            std::fs::write(root.join(&f), &c.text).expect("file");
            what.push_str(&format!("file {:?} {}:\n{}\n", f, if c.ast.is_some() { "accepted" } else { "rejected" }, c.text));
            good.push((f, c.ast.is_some()));
        }
        Ok(())
    };
    let with_quiet = |mut v: Vec<String>| {
        if quiet {
            v.insert(0, q.clone());
        }
        v
    };
    let mut full = false;
    let (tool, args): (&str, Vec<String>) = match cx.src.weighted(&[14, 14, 14, 14, 10, 4, 10, 10, 10]) {
        0 | 1 => {
            // one file, not UTF-8
            let b = not_utf8(cx);
            std::fs::write(root.join(&name), &b).expect("file");
            what.push_str(&format!("file {:?}: {}\n", name, b.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|b| b as char).collect::<String>()));
            cx.labels.push("not UTF-8");
            if cx.src.chance(500) {
                (&dump, with_quiet(vec![name]))
            } else {
                (&check, vec![name])
            }
        }
        2 => {
            // a directory with such a file in it
            lay(cx, &mut what, "")?;
            let b = not_utf8(cx);
            std::fs::write(root.join("bad.elm"), &b).expect("file");
            what.push_str(&format!("file \"bad.elm\": {}\n", b.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|b| b as char).collect::<String>()));
            cx.labels.push("not UTF-8 in a directory");
            (&dump, with_quiet(vec![".".to_string()]))
        }
        3 => {
            // nothing of that name
            lay(cx, &mut what, "")?;
            let wrong = match cx.src.below(6) {
                0 => format!("{}/{}", name, name),
                1 => "nowhere.elm".to_string(),
                // nothing, or next to nothing, for a name; and a name no file can have
                4 => cx.src.pick(&["", " ", "\n"]).to_string(),
                5 => format!("{}.elm", "n".repeat(cx.src.range(252, 300))),
                2 => match good.first() {
                    // a file is not a directory
                    Some(g) => format!("{}/x.elm", g.0),
                    None => "nowhere/".to_string(),
                },
                _ => {
                    let _ = std::os::unix::fs::symlink("nothing-there", root.join("link.elm"));
                    "link.elm".to_string()
                }
            };
            cx.labels.push("no such file");
            if cx.src.chance(500) {
                (&dump, with_quiet(vec![wrong]))
            } else {
                (&check, vec![wrong])
            }
        }
        4 => {
            // a directory is no file to check
            std::fs::create_dir_all(root.join("dir.elm")).expect("directory");
            lay(cx, &mut what, "dir.elm/")?;
            cx.labels.push("directory to check");
            (&check, vec![cx.src.pick(&["dir.elm", ".", "./dir.elm", "/"]).to_string()])
        }
        5 => {
            // a directory that cannot be read to its end
            lay(cx, &mut what, "")?;
            let with_file = cx.src.chance(700);
            if too_deep(&root, with_file).is_err() {
                return Ok(());
            }
            what.push_str("and a directory 5600 characters deep\n");
            cx.labels.push("unreadable directory");
            (&dump, with_quiet(vec![".".to_string()]))
        }
        6 => {
            // a dangling link
            lay(cx, &mut what, "")?;
            let _ = std::os::unix::fs::symlink("nothing-there", root.join("bad.elm"));
            what.push_str("bad.elm -> nothing-there\n");
            cx.labels.push("unreadable in a directory");
            (&dump, with_quiet(vec![".".to_string()]))
        }
        7 => {
            // what is said cannot be written
            let v = valid(cx, 2);
            std::fs::write(root.join(&name), &v.text).expect("file");
            what.push_str(&format!("file {:?}:\n{}\noutput to /dev/full\n", name, v.text));
            cx.labels.push("output cannot be written");
            full = true;
            match cx.src.below(3) {
                0 => (&check, vec![name]),
                1 => (&dump, with_quiet(vec![name])),
                _ => {
                    std::fs::write(root.join("a.elm"), &v.text).expect("file");
                    (&dump, with_quiet(vec![".".to_string()]))
                }
            }
        }
        _ => {
            // not what the tool is called with
            std::fs::write(root.join("a.elm"), "x = 1\n").expect("file");
            let v: &[&str] = match cx.src.below(4) {
                0 => &[],
                1 => &["--no-such-option", "a.elm"],
                2 => &["a.elm", "a.elm"],
                _ => &["-x", "a.elm"],
            };
            cx.labels.push("wrong arguments");
            let v: Vec<String> = v.iter().map(|s| s.to_string()).collect();
            if v.is_empty() {
                (&check, v)
            } else {
                (&dump, v)
            }
        }
    };
    what.push_str(&format!("{} {:?}\n", tool.rsplit('/').next().unwrap(), args));
    cx.text.push_str(&what);
    cx.nontrivial = true;
    let r = run_tool_to(tool, &args, &root, &s.0, full);
    if !r.ended {
        return fail("the tool does not end", &what, "it ends", &r.show());
    }
    if r.code == Some(0) {
        return fail("the tool reports success although it could not do its work", &what, "an exit status that is not 0", &r.show());
    }
    if r.signal.is_some() {
        return fail("the tool is ended by a signal", &what, "an exit status that is not 0", &r.show());
    }
    // what it said nevertheless is true
    let claims = if tool.ends_with("check") {
        r.out.lines().any(|l| l == "[]" || l == "[")
    } else if quiet {
        !r.out.lines().all(|l| good.iter().any(|(f, ok)| l == format!("{:?} {}", format!("./{}", f), if *ok { "parsed successfully" } else { "failed to parse" })))
    } else {
        r.out.lines().filter(|l| *l == "[]" || *l == "[").count() > good.iter().filter(|g| g.1).count()
    };
    if claims {
        return fail("the tool passes off as parsed what it could not read", &what, "an error", &r.show());
    }
    Ok(())
}

/// Whether a known finding still fails. `rejects TEXT`: a valid program, with \n for line breaks,
/// is rejected. `crash N TEXT`: the dump tool is ended by a signal on N repetitions of the text.
pub fn still_fails(what: &str, o: &Arc<Opts>, scratch: &str) -> bool {
    if what.starts_with("rejects ") {
        let t = what["rejects ".len()..].replace("\\n", "\n");
        return !parse(&t).accepted();
    }
    if what.starts_with("crash ") {
        let mut f = what.splitn(3, ' ').skip(1);
        let n: usize = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let t = f.next().unwrap_or("").to_string();
        let s = Scratch::new(&format!("{}/known", scratch));
        let p = s.0.join("in/deep.elm");
        if std::fs::write(&p, format!("x = {}", t.repeat(n))).is_err() {
            return false;
        }
        let r = run_tool(&format!("{}/elm-parser-dump", o.bins), &["-q".to_string(), p.to_string_lossy().to_string()], &s.0, &s.0);
        return r.signal.is_some();
    }
    false
}
