//! The same document gives the same output every time, whatever has been converted before.
use super::*;
use crate::docx;
use crate::engine::*;
use crate::sut;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// Numbers that the library for Word documents counts up for as long as the process runs
fn unnumbered(s: &str, before: &str) -> String {
    let mut out = String::new();
    for (i, part) in s.split(before).enumerate() {
        if i > 0 {
            out += before;
            out += part.trim_start_matches(|c: char| c.is_ascii_hexdigit());
        } else {
            out += part;
        }
    }
    out
}

/// Everything a document is converted to: the graph as JSON, HTML and the files of a Word document.
pub fn outputs(src: &str, scratch: &Path) -> String {
    let at = scratch.join("doc.adoc");
    let a = match sut::parse_at(src, &at) {
        Ok(a) => a,
        Err(e) => return format!("error: {e}\n"),
    };
    let json = serde_json::to_string(&a).unwrap_or_default();
    let html = sut::html(&a).unwrap_or_else(|e| e);
    let mut out = format!("{json}\n{html}\n{} words\n", a.word_count());
    match docx::parts(&a, &scratch.join(format!("{}.docx", std::process::id()))) {
        Ok(p) => {
            for (n, b) in p {
                let s = String::from_utf8_lossy(&b).into_owned();
                out += &format!("{n}\n{}\n", unnumbered(&unnumbered(&s, "paraId=\""), "rIdImage"));
            }
        }
        Err(e) => out += &e,
    }
    let _ = std::fs::remove_file(scratch.join(format!("{}.docx", std::process::id())));
    let again = serde_json::to_string(&a).unwrap_or_default();
    if again != json {
        out += "and converting it changed the graph\n";
    }
    out
}

/// The same in a process of its own
fn fresh(src: &str, scratch: &Path) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe)
        .arg("outputs")
        .arg(scratch)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    c.stdin.take().unwrap().write_all(src.as_bytes()).map_err(|e| e.to_string())?;
    let out = c.wait_with_output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("converting ended with {}", out.status));
    }
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

/// Documents with much that could be carried over, or come out in one order or another.
fn special() -> Vec<String> {
    let many = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    vec![
        format!("= T\n{}\n{}\n", many(12, &|i| format!(":a{i}: v{i}\n")), many(12, &|i| format!("{{a{i}}} "))),
        format!("[{}]\npara\n", many(12, &|i| format!("k{i}=v{i},")).trim_end_matches(',')),
        format!("[quote,a,b,{}]\n____\npara\n____\n", many(10, &|i| format!("k{i}=v{i},")).trim_end_matches(',')),
        many(10, &|i| format!("[[i{i}]]\n.t{i}\npara {i} <<i{}>>\n\n", 9 - i)),
        many(5, &|i| format!("[[s{i}]]\n== s{i}\n\n<<s{}>>\n\n", 4 - i)),
        many(6, &|i| format!("a footnote:[note {i}]\n\n")),
        format!("[role=\"{}\"]\npara\n", many(12, &|i| format!("r{i} "))),
        // not finished
        ".t\n[[i]]\n[role=\"r\"]\n".into(),
        "*a _b `c #d\n".into(),
        "* a\n+\n====\nb footnote:[c\n".into(),
        "[[i]]\n.one\na\n\n[[i]]\n.two\nb\n\n<<i>>\n".into(),
        "<<i0>> <<s0>> {a0} {a1} footnote:[x]\n".into(),
        ":leveloffset: 1\n\n== a\n\nb\n".into(),
        "== a\n\n=== b\n\nc\n".into(),
        ". a\n. b\n\n'''\n\n. c\n\n'''\n\n* d\n".into(),
        "include::part.adoc[]\n\n{a0}\n".into(),
        ":!a0:\n\n{a0} &lt; &amp; 'a' -- b...\n".into(),
        "[NOTE]\n====\n* a\n+\n----\nb\n----\n====\n\n<<<\n\n[cols=2]\n|===\n|a\n|b\n|===\n".into(),
        "<<<\n\n----\n".into(),
        // not documents
        "== a\n\n= b\n".into(),
        "|===\n* a\n|===\n".into(),
        "a\n\n+\nb\n".into(),
        "== a\n\n====== b\n".into(),
        "include::missing.adoc[]\n".into(),
        "[cols=2]\n|===\n|a *b\n".into(),
    ]
}

struct Docs {
    src: Vec<String>,
    want: Vec<Option<String>>,
    scratch: PathBuf,
}

impl Docs {
    /// What the document is converted to when nothing else has been
    fn want(&mut self, i: usize) -> Result<String, String> {
        if self.want[i].is_none() {
            self.want[i] = Some(fresh(&self.src[i], &self.scratch)?);
        }
        Ok(self.want[i].clone().unwrap())
    }
}

pub fn run(cx: &mut Cx) {
    let mut src = special();
    let hard = src.len();
    for k in 0..KINDS {
        let w = &mut Words::default();
        let b = if [15, 16, 17, 18, 19, 25].contains(&k) { kind(k, w) } else { kind(k, w).with(Some("i"), Some("r s"), Some("t")) };
        src.push(source(&[b, para(&w.s())]));
    }
    let _ = std::fs::write(cx.scratch.join("part.adoc"), ":a0: from the file\n\n{a0}\n");
    let n = src.len();
    let mut docs = Docs { want: vec![None; n], src, scratch: cx.scratch.clone() };
    cx.space("again and again");
    for i in 0..n {
        for round in 0..cx.tier.pick(6, 40) {
            if cx.mine() {
                let s = docs.src[i].clone();
                cx.check(round + 1, &s, |o| {
                    o.ran();
                    let want = docs.want(i)?;
                    o.saw(&want);
                    o.hit(if want.starts_with("error") { "rejected" } else { "converted" });
                    same("a process later it differs", &want, &fresh(&s, &docs.scratch)?)?;
                    o.ran();
                    same("converted here it differs", &want, &outputs(&s, &docs.scratch))
                });
            }
        }
    }
    cx.space("after other documents");
    let mut after = |cx: &mut Cx, history: &[usize], i: usize| {
        if cx.mine() {
            let mut all: Vec<&str> = history.iter().map(|&h| docs.src[h].as_str()).collect();
            all.push(&docs.src[i]);
            let shown = all.join("\n~~~~ then ~~~~\n");
            cx.check(history.len() + 1, &shown, |o| {
                for &h in history {
                    o.ran();
                    outputs(&docs.src[h], &docs.scratch);
                }
                o.ran();
                let got = outputs(&docs.src[i], &docs.scratch);
                o.saw(&got);
                same("it differs", &docs.want(i)?, &got)
            });
        }
    };
    seqs(n, 1..=1, |h| (0..n).for_each(|i| after(cx, h, i)));
    let few = cx.tier.pick(16, n);
    seqs(few, 2..=2, |h| (0..few.min(hard)).for_each(|i| after(cx, h, i)));
    cx.space("wherever the document is");
    for i in 0..n {
        for at in ["a.adoc", "/", "/x/y.adoc", "x y/é.txt", ""] {
            if docs.src[i].contains("include::") || docs.src[i].contains("image::") || !cx.mine() {
                continue;
            }
            let s = docs.src[i].clone();
            cx.check(1, &s, |o| {
                o.ran();
                let one = |p: &str| match sut::parse_at(&s, Path::new(p)) {
                    Ok(a) => format!("{}\n{}", serde_json::to_string(&a).unwrap_or_default(), sut::html(&a).unwrap_or_else(|e| e)),
                    Err(e) => e,
                };
                same("it differs", &one("/nonexistent/doc.adoc"), &one(at))
            });
        }
    }
}
