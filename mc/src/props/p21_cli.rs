//! The program converts the file it is given to where it was told to, or fails and changes nothing.
use crate::docx;
use crate::engine::*;
use asciidocr::{backends::htmls::render_htmlbook, parser::Parser, scanner::Scanner};
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// What is in a directory: the contents of files, `None` for directories
type Dir = BTreeMap<String, Option<Vec<u8>>>;

fn look(at: &Path, under: &str, out: &mut Dir) {
    let Ok(list) = fs::read_dir(at) else { return };
    for e in list.flatten() {
        let name = format!("{under}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            out.insert(name.clone(), None);
            look(&e.path(), &format!("{name}/"), out);
        } else {
            out.insert(name, fs::read(e.path()).ok());
        }
    }
}

const OLD: &[u8] = b"what was there before, and is longer than whatever would be written over only a part of it\n";

/// The documents, and whether they can be converted: as they are, and without resolving targets
const DOCS: [(&[u8], bool, bool); 11] = [
    (b"= T\n\nsome *words* here\n\n== s\n\n* a\n* b\n", true, true),
    (b"", true, true),
    ("no line end, é 😀 &lt;".as_bytes(), true, true),
    (b"include::part.adoc[]\n\nafter\n", true, true),
    // with something to warn about
    (b"{gone} <<nowhere>>\n\n[]\nx\n", true, true),
    // not an image, so not to be put in a Word document
    (b"image::part.adoc[]\n", true, true),
    // not without what is missing
    (b"a\n\nimage::missing.png[]\n", false, true),
    (b"a\n\nimage::there.png[]\n", true, true),
    // not at all
    (b"a\n\n= b\n", false, false),
    (b"\xff\xfe a\n", false, false),
    (b"include::missing.adoc[]\n", false, false),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum To {
    Html,
    Json,
    Docx,
}

struct Case<'a> {
    file: &'a str,
    /// where that is, if it is anywhere
    path: Option<&'a str>,
    doc: usize,
    to: To,
    args: Vec<String>,
    /// where the output goes: nowhere it can be written to, standard output, or a file
    out: Option<&'a str>,
    count: bool,
    unresolved: bool,
    old: bool,
}

fn program() -> PathBuf {
    let exe = std::env::current_exe().unwrap_or_default();
    exe.parent().unwrap_or(Path::new("/")).parent().unwrap_or(Path::new("/")).join("cli/debug/asciidocr")
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

fn start(dir: &Path, args: &[String], input: &[u8], stdout: Stdio) -> Result<Ran, String> {
    let mut c = Command::new(program())
        .args(args)
        .current_dir(dir)
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(stdout)
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("{}: {e}", program().display()))?;
    let _ = c.stdin.take().unwrap().write_all(input);
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    Ok(Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() })
}

fn set_up(dir: &Path, path: Option<&str>, doc: &[u8], out: Option<&str>, old: bool) -> Result<Dir, String> {
    let _ = fs::remove_dir_all(dir);
    let put = |p: &str, b: &[u8]| {
        let p = dir.join(p);
        fs::create_dir_all(p.parent().unwrap()).and_then(|_| fs::write(p, b)).map_err(|e| e.to_string())
    };
    put("sub/other.html", OLD)?;
    let png = super::p20_docx::png(1);
    for d in ["", "sub/", "sub.d/", "-x/"] {
        put(&format!("{d}part.adoc"), b"_included_\n")?;
        put(&format!("{d}there.png"), &png)?;
    }
    if let Some(p) = path {
        put(p, doc)?;
    }
    if let (Some(o), true) = (out, old) {
        put(o, OLD)?;
    }
    let mut d = Dir::new();
    look(dir, "", &mut d);
    Ok(d)
}

/// The file as it should be written, from the library itself
fn converted(c: &Case, text: &str, dir: &Path) -> Result<(Vec<u8>, usize), String> {
    // from where the program ran
    let at = PathBuf::from(c.file);
    std::env::set_current_dir(dir).map_err(|e| e.to_string())?;
    let mut parser = match c.unresolved {
        true => Parser::new_no_target_resolution(at),
        false => Parser::new(at),
    };
    let a = parser.parse(Scanner::new(text)).map_err(|e| e.to_string())?;
    let body = match c.to {
        To::Html => render_htmlbook(&a).map_err(|e| e.to_string())?.into_bytes(),
        To::Json => serde_json::to_string_pretty(&a).map_err(|e| e.to_string())?.into_bytes(),
        To::Docx => docx::read(&docx::parts(&a, &dir.with_extension("docx"))?)?.into_bytes(),
    };
    Ok((body, a.word_count()))
}

fn json(b: &[u8]) -> Result<String, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not text")?;
    let v: serde_json::Value = serde_json::from_str(s).map_err(|e| format!("not JSON: {e}"))?;
    Ok(v.to_string())
}

fn holds(c: &Case, dir: &Path, o: &mut Obs) -> Result<(), String> {
    let (bytes, whole, unresolved) = DOCS[c.doc];
    let before = set_up(dir, c.path, bytes, c.out.filter(|o| *o != "-"), c.old)?;
    let input: &[u8] = if c.file == "-" { bytes } else { b"not this\n" };
    o.ran();
    let ran = start(dir, &c.args, input, Stdio::piped())?;
    let mut after = Dir::new();
    look(dir, "", &mut after);
    let there = c.file == "-" || c.path.is_some();
    let no_image = c.to == To::Docx && bytes.starts_with(b"image::part");
    let works = if c.unresolved { unresolved } else { whole } && !no_image;
    let same_file = c.path.is_some() && c.path == c.out.filter(|o| *o != "-").map(|o| o.trim_start_matches("./"));
    let ok = there && works && c.out.is_some() && !same_file && (c.to != To::Docx || c.out != Some("-") && !c.unresolved);
    let shown = String::from_utf8_lossy(&ran.out).into_owned();
    o.saw(&format!("{:?} {shown} {} {:?}", ran.code, ran.err, c.out.and_then(|p| after.get(p))));
    if !ok {
        o.hit("fails");
        if ran.code != Some(1) {
            return Err(format!("ended with {:?} where it should fail\n{}", ran.code, ran.err));
        }
        if ran.err.is_empty() {
            return Err("failed without saying why".into());
        }
        if after != before {
            return Err(format!("failed, and changed files: {:?} {:?}", before.keys(), after.keys()));
        }
        return Ok(());
    }
    o.hit(match (c.to, c.out) {
        (To::Html, Some("-")) => "html to standard output",
        (To::Html, _) => "html",
        (To::Json, Some("-")) => "json to standard output",
        (To::Json, _) => "json",
        _ => "docx",
    });
    if ran.code != Some(0) {
        return Err(format!("ended with {:?}\n{}", ran.code, ran.err));
    }
    let (want, words) = converted(c, std::str::from_utf8(bytes).unwrap(), dir)?;
    let mut stdout = shown.as_str();
    if c.count {
        let line = format!("{words} words in {}\n", c.file);
        stdout = stdout.strip_prefix(&line).ok_or(format!("does not begin with the count: expected {line}got {shown}"))?;
    }
    let mut expected = before.clone();
    let got = match c.out {
        Some("-") => stdout.as_bytes().strip_suffix(b"\n").unwrap_or(stdout.as_bytes()).to_vec(),
        Some(p) => {
            if !stdout.is_empty() {
                return Err(format!("also printed {stdout}"));
            }
            let p = p.trim_start_matches("./");
            let Some(Some(b)) = after.get(p).cloned() else { return Err(format!("{p} is not there, but {:?}", after.keys())) };
            expected.insert(p.to_string(), Some(b.clone()));
            b
        }
        None => unreachable!(),
    };
    if expected != after {
        return Err(format!("other files changed: {:?} {:?}", expected.keys(), after.keys()));
    }
    let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    match c.to {
        To::Html => same("the output differs", &text(&want), &text(&got)),
        To::Json => same("the output differs", &json(&want)?, &json(&got)?),
        To::Docx => same("the output differs", &text(&want), &docx::read(&docx::read_parts(&dir.join(c.out.unwrap()))?)?),
    }
}

/// The output for a file if nothing is said about it: next to it, with another extension
fn beside(path: &str, to: To) -> String {
    let ext = match to {
        To::Html => "html",
        To::Json => "json",
        To::Docx => "docx",
    };
    let (dir, name) = path.rsplit_once('/').map(|(d, n)| (format!("{d}/"), n)).unwrap_or((String::new(), path));
    let stem = name.rfind('.').filter(|i| *i > 0).map(|i| &name[..i]).unwrap_or(name);
    format!("{dir}{stem}.{ext}")
}

pub fn run(cx: &mut Cx) {
    let dir = cx.scratch.join("cli");
    let files: [(&str, Option<&str>); 18] = [
        ("doc.adoc", Some("doc.adoc")),
        ("-", None),
        ("sub/doc.adoc", Some("sub/doc.adoc")),
        ("a.b.adoc", Some("a.b.adoc")),
        ("doc", Some("doc")),
        (".hidden", Some(".hidden")),
        ("./x y.txt", Some("x y.txt")),
        ("sub/../é.asciidoc", Some("é.asciidoc")),
        ("ABS", Some("abs.adoc")),
        ("doc.html", Some("doc.html")),
        ("missing.adoc", None),
        ("sub", None),
        ("sub.d/doc", Some("sub.d/doc")),
        ("-doc.adoc", Some("-doc.adoc")),
        ("--", Some("--")),
        ("./-", Some("-")),
        ("./-x/y.adoc", Some("-x/y.adoc")),
        ("", None),
    ];
    let outs = ["", "-", "out.html", "sub/o u t", "nowhere/out.html", "sub", "doc.adoc", "./sub/../new.json", "EMPTY", "-.html", "./-", " "];
    let tos = [(To::Html, ""), (To::Html, "htmlbook"), (To::Json, "json"), (To::Docx, "docx")];
    let go = |cx: &mut Cx, doc: usize, f: usize, out: usize, to: usize, flags: usize, old: bool| {
        if !cx.mine() {
            return;
        }
        let (file, path) = files[f];
        let abs = dir.join("abs.adoc").display().to_string();
        let file = if file == "ABS" { abs.as_str() } else { file };
        let (to, name) = tos[to];
        let mut args = vec![];
        if outs[out] != "" {
            args.push(format!("--out-file={}", if outs[out] == "EMPTY" { "" } else { outs[out] }));
        }
        if name != "" {
            args.extend(["-b".to_string(), name.to_string()]);
        }
        args.extend((flags & 1 != 0).then(|| "-c".to_string()));
        args.extend((flags & 2 != 0).then(|| "-x".to_string()));
        match file {
            f if f.starts_with('-') && f != "-" => args.extend(["--".to_string(), f.to_string()]),
            f => args.insert(0, f.to_string()),
        }
        let near = path.map(|p| beside(p, to));
        let out = match outs[out] {
            "" if file == "-" => Some("-"),
            "" => near.as_deref(),
            "nowhere/out.html" | "sub" | "EMPTY" => None,
            "./-" => Some("./-"),
            "./sub/../new.json" => Some("new.json"),
            o => Some(o),
        };
        let c = Case { file, path, doc, to, out, count: flags & 1 != 0, unresolved: flags & 2 != 0, old, args };
        let shown = format!("{} with {:?}", c.args.join(" ").replace(&dir.display().to_string(), "DIR"), String::from_utf8_lossy(DOCS[doc].0));
        cx.check(c.args.len(), &shown, |o| holds(&c, &dir, o));
    };
    cx.space("any document, anywhere");
    for doc in 0..DOCS.len() {
        for f in 0..files.len() {
            for to in 0..tos.len() {
                for flags in 0..4 {
                    go(cx, doc, f, 0, to, flags, flags == 1);
                }
            }
        }
    }
    cx.space("any output");
    for doc in cx.tier.pick(vec![0, 4, 5, 6, 8], (0..DOCS.len()).collect()) {
        for f in cx.tier.pick(vec![0, 1, 2, 9], (0..files.len()).collect()) {
            for out in 1..outs.len() {
                for to in 0..tos.len() {
                    for flags in 0..4 {
                        // what is there already is a file
                        let old = flags & 1 == 0 && !["-", "sub", "nowhere/out.html", "EMPTY"].contains(&outs[out]) && files[f].1 != Some(outs[out]);
                        go(cx, doc, f, out, to, flags, old);
                    }
                }
            }
        }
    }
    cx.space("other ways of saying it");
    for (args, out) in [
        ("-o out.html doc.adoc", "out.html"),
        ("-oout.html doc.adoc", "out.html"),
        ("-o - doc.adoc", "-"),
        ("doc.adoc -o-", "-"),
        ("--out-file out.html doc.adoc", "out.html"),
        ("--out-file=out.html doc.adoc", "out.html"),
        ("-b htmlbook doc.adoc", "doc.html"),
        ("-bhtmlbook doc.adoc", "doc.html"),
        ("--backend htmlbook doc.adoc", "doc.html"),
        ("--backend=htmlbook doc.adoc -o out.html", "out.html"),
        ("-c doc.adoc", "doc.html"),
        ("--count-words doc.adoc", "doc.html"),
        ("-cx doc.adoc", "doc.html"),
        ("--allow-unresolved-targets doc.adoc --count-words", "doc.html"),
        ("-- doc.adoc", "doc.html"),
    ] {
        if cx.mine() {
            let c = Case {
                file: "doc.adoc",
                path: Some("doc.adoc"),
                doc: 0,
                to: To::Html,
                args: args.split(' ').map(|s| s.to_string()).collect(),
                out: Some(out),
                count: args.contains("-c"),
                unresolved: false,
                old: true,
            };
            cx.check(1, &args.to_string(), |o| holds(&c, &dir, o));
        }
    }
    cx.space("not a way of saying anything");
    for args in ["", "a b", "doc.adoc -b", "doc.adoc -b pdf", "doc.adoc -o", "doc.adoc --what", "doc.adoc -o a -o b", "doc.adoc -b json -b json"] {
        if cx.mine() {
            cx.check(1, &args.to_string(), |o| {
                o.ran();
                let before = set_up(&dir, Some("doc.adoc"), DOCS[0].0, None, false)?;
                let words: Vec<String> = args.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                let ran = start(&dir, &words, b"", Stdio::piped())?;
                let mut after = Dir::new();
                look(&dir, "", &mut after);
                match (ran.code, ran.err.is_empty(), after == before) {
                    (Some(2), false, true) => Ok(()),
                    x => Err(format!("ended with {x:?} {}", ran.err)),
                }
            });
        }
    }
    cx.space("standard output that is full");
    for to in ["htmlbook", "json"] {
        for args in ["doc.adoc -o - -b", "doc.adoc -c -b", "- -b", "- -c -b"] {
            if cx.mine() {
                let args = format!("{args} {to}");
                cx.check(1, &args, |o| {
                    o.ran();
                    set_up(&dir, Some("doc.adoc"), DOCS[0].0, None, false)?;
                    let full = fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?;
                    let words: Vec<String> = args.split(' ').map(|s| s.to_string()).collect();
                    let ran = start(&dir, &words, DOCS[0].0, full.into())?;
                    match (ran.code, ran.err.is_empty()) {
                        (Some(1), false) => Ok(()),
                        x => Err(format!("ended with {x:?} {}", ran.err)),
                    }
                });
            }
        }
    }
}
