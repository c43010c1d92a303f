//! What is inside of a verbatim block is text, exactly as written, whatever it looks like.
use super::*;
use crate::engine::*;
use crate::html::{self, Ev};
use crate::{canon, sut};

pub const LINES: [&str; 61] = [
    "plain", "", " one space", "    indented", "\ttab", "trailing  ", "*a* _b_ `c`", "#m# ^s^ ~t~", "== Heading", "= Title", "* item", ". item", ".title",
    "t:: text", "|===", "|cell |cell", "// comment", "////", "====", "****", "____", "--", "----", "....", "++++", "+", " +",
    "[[id]]", "[source,rust]", "[quote]", "[.role]#x#", "NOTE: text", "image::a.png[]", "image:b.png[]", "https://x.y[z]", "<<id>>", "footnote:[f]",
    "<b>x</b> & \"q\" 'r'", "&lt; &#8212; &amp;", "{attr}", ":attr: v", "(C) ... -- ->", "it's `a`", "\"`q`\"", "pass:[x]", "++p++", "'''", "<<<", "<1> one", "éé — ß", "a :: b", "\\*x*",
    "code <1>", "x // <12>", "<3>", "<> <a>", "<4>5>", "<6> x", "n <100>", "<0>", "o <12345>",
];

/// Lines that mean something between blocks, but have no inline markup
const VERSE: [&str; 30] = [
    "plain", "more words", "    indented", "== Heading", "= Title", "* item", ". item", ".title", "t:: text", "|===", "|cell |cell", "====", "****", "--", "----",
    "....", "++++", "+", "[[id]]", "[source,rust]", "[quote]", "NOTE: text", "'''", "<<<", "<1> one", "code <1>", "éé ß", "[NOTE]", "t::", "include",
];

/// A verse keeps its line breaks, and block markup in it is text.
fn verses(cx: &mut Cx) {
    cx.space("lines in verses");
    seqs(VERSE.len(), 1..=cx.tier.pick(3, 4), |v| {
        for stanzas in 0..2 {
            for closed in [true, false] {
                if !cx.mine() {
                    continue;
                }
                let lines: Vec<&str> = v.iter().map(|&l| VERSE[l]).collect();
                // with an empty line between stanzas
                let body = lines.join(if stanzas == 1 { "\n\n" } else { "\n" });
                let src = match closed {
                    true => format!("before\n\n[verse]\n____\n{body}\n____\n\nafter\n"),
                    false => format!("before\n\n[verse]\n____\n{body}"),
                };
                let mut want = format!("para \"before\"\nverse \"{}\"\n", canon::esc(&body));
                if closed {
                    want += "para \"after\"\n";
                }
                cx.check(v.len(), &src, |o| {
                    o.ran();
                    let got = sut::tree(&src);
                    o.saw(&got);
                    same("the verse differs", &want, &got)
                });
            }
        }
    });
}

#[derive(Clone, Copy)]
struct Kind {
    delim: &'static str,
    head: &'static str,
    name: &'static str,
}

const KS: [Kind; 5] = [
    Kind { delim: "----", head: "", name: "listing" },
    Kind { delim: "....", head: "", name: "literal" },
    Kind { delim: "++++", head: "", name: "pass" },
    Kind { delim: "----", head: "[source,rust]\n", name: "listing" },
    Kind { delim: "----", head: "[source]\n", name: "listing" },
];

fn one(k: Kind, lines: &[&str]) -> String {
    let mut s = format!("{}{}\n", k.head, k.delim);
    for l in lines {
        s += &format!("{l}\n");
    }
    s + k.delim
}

pub fn text(v: &serde_json::Value) -> String {
    let one = |i: &serde_json::Value| match i["value"].as_str() {
        Some(s) => s.to_string(),
        None if i["variant"] == "strong" && i["metadata"]["roles"] == serde_json::json!(["conum"]) => {
            format!("⟨{}⟩", i["inlines"].as_array().map(|a| canon::inlines(a)).unwrap_or_default())
        }
        None => "⟨?⟩".into(),
    };
    v["inlines"].as_array().map(|a| a.iter().map(one).collect()).unwrap_or_default()
}

/// A number in angle brackets that ends a line of a listing is a callout; everything else is as it is written.
pub fn meant(line: &str) -> String {
    if let Some((pre, n)) = line.strip_suffix('>').and_then(|l| l.rsplit_once('<')) {
        if !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()) {
            return format!("{pre}⟨({n})⟩");
        }
    }
    line.into()
}

pub fn find<'a>(v: &'a serde_json::Value, name: &str, out: &mut Vec<&'a serde_json::Value>) {
    if v["name"] == name {
        out.push(v);
    }
    for k in ["blocks", "items"] {
        for c in v[k].as_array().into_iter().flatten() {
            find(c, name, out);
        }
    }
}

/// The block's text is the lines; the rest of the document is what it is with a plain block.
fn holds(k: Kind, src: &str, plain: &str, lines: &[&str], in_html: bool, o: &mut Obs) -> Result<(), String> {
    o.ran();
    let a = sut::parse(src)?;
    let j = sut::json(&a);
    let mut found = vec![];
    find(&j, k.name, &mut found);
    let [b] = found[..] else { return Err(format!("{} blocks of the kind {}\n{}", found.len(), k.name, canon::doc(&j))) };
    let got = text(b);
    o.saw(&got);
    let framed = got.strip_prefix('\n').unwrap_or(&got);
    let want = lines.iter().map(|l| if k.name == "listing" { meant(l) } else { l.to_string() }).collect::<Vec<_>>().join("\n");
    if framed != want && framed.strip_suffix('\n') != Some(&want) {
        return Err(format!("the text is {got:?}, not {want:?}"));
    }
    let rest = |v: &serde_json::Value| -> String {
        let mut v = v.clone();
        blank(&mut v, k.name);
        canon::doc(&v)
    };
    same("the rest of the document differs", &rest(&sut::json(&sut::parse(plain)?)), &rest(&j))?;
    if in_html {
        o.ran();
        let got = sut::html(&a)?;
        if k.name == "pass" {
            if !got.contains(&want) {
                return Err(format!("{want:?} is not in\n{got}"));
            }
        } else {
            let evs = html::read(&got)?;
            html::balanced(&evs)?;
            let i = evs.iter().position(|e| matches!(e, Ev::Open(n, _) if n == "pre")).ok_or("no <pre>")?;
            let mut got = String::new();
            for e in &evs[i + 1..] {
                match e {
                    Ev::Text(s) => got += &unescape(s)?,
                    Ev::Open(n, a) if n == "strong" && *a == [("class".to_string(), "conum".to_string())] => got.push('⟨'),
                    Ev::Close(n) if n == "strong" => got.push('⟩'),
                    Ev::Close(n) if n == "pre" => break,
                    e => return Err(format!("in <pre>: {e:?}")),
                }
            }
            let framed = got.strip_prefix('\n').unwrap_or(&got);
            if framed != want && framed.strip_suffix('\n') != Some(&want) {
                return Err(format!("the text of <pre> is {got:?}, not {want:?}"));
            }
        }
    }
    Ok(())
}

/// Only the five references that escaping needs may appear; anything else is not escaped text.
fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut r = s;
    while let Some(i) = r.find('&') {
        out += &r[..i];
        r = &r[i..];
        let (n, c) = [("&lt;", "<"), ("&gt;", ">"), ("&amp;", "&"), ("&quot;", "\""), ("&#39;", "'"), ("&#x27;", "'")]
            .into_iter()
            .find(|(n, _)| r.starts_with(n))
            .ok_or_else(|| format!("not escaped: {r:?}"))?;
        out += c;
        r = &r[n.len()..];
    }
    Ok(out + r)
}

fn blank(v: &mut serde_json::Value, name: &str) {
    if v["name"] == name {
        v["inlines"] = serde_json::json!([]);
    }
    for k in ["blocks", "items"] {
        for c in v.get_mut(k).and_then(|x| x.as_array_mut()).into_iter().flatten() {
            blank(c, name);
        }
    }
}

fn place(p: usize, b: &str) -> String {
    match p {
        0 => format!("{b}\n"),
        1 => format!("before\n\n{b}\n\nafter *b*\n"),
        2 => format!("* item\n+\n{b}\n* other\n"),
        3 => format!("t:: text\n+\n{b}\nu:: other\n"),
        4 => format!("====\nin\n\n{b}\n====\n\nafter\n"),
        5 => format!("****\n{b}\n\nout\n****\n"),
        6 => format!("== S\n\n{b}\n\n=== T\n\nx\n"),
        7 => format!(":attr: value\n\n{b}\n\n{{attr}} after\n"),
        8 => format!(".Title\n[[ident]]\n{b}\n\nafter\n"),
        _ => format!("[NOTE]\n====\n{b}\n====\n\nafter\n"),
    }
}
const PLACES: usize = 10;

fn case(cx: &mut Cx, k: Kind, p: usize, lines: &[&str], html: bool) {
    // the block's own delimiter ends it, and an image or include inside of it is looked at elsewhere
    if lines.contains(&k.delim) {
        return;
    }
    if cx.mine() {
        let src = place(p, &one(k, lines));
        let plain = place(p, &one(k, &["x"]));
        cx.check(lines.len() + 1, &src, |o| holds(k, &src, &plain, lines, html, o));
    }
}

pub fn run(cx: &mut Cx) {
    verses(cx);
    cx.space("lines");
    for k in KS {
        seqs(LINES.len(), 0..=cx.tier.pick(2, 3), |v| {
            let lines: Vec<&str> = v.iter().map(|&i| LINES[i]).collect();
            case(cx, k, 1, &lines, false);
        });
    }
    cx.space("pairs of lines in every place");
    for k in KS {
        for p in 0..PLACES {
            seqs(LINES.len(), 1..=2, |v| {
                let lines: Vec<&str> = v.iter().map(|&i| LINES[i]).collect();
                case(cx, k, p, &lines, false);
            });
        }
    }
    cx.space("callouts");
    for k in [KS[0], KS[3]] {
        for n in (0..=cx.tier.pick(130u128, 1300)).chain([255, 256, 999, 1000, 65535, 65536, 99999, 4294967296, 18446744073709551616]) {
            let (a, b) = (format!("x <{n}>"), format!("<{n}> y"));
            let long = format!("éx // <{n}>");
            case(cx, k, 1, &[a.as_str(), "y", &b, &long, "z"], n < 12);
            // several on one line
            let two = format!("x <1> <{n}>");
            if cx.mine() {
                let src = place(1, &one(k, &[&two]));
                cx.check(1, &src, |o| {
                    o.ran();
                    let j = sut::json(&sut::parse(&src)?);
                    let mut found = vec![];
                    find(&j, "listing", &mut found);
                    let got = found.first().map(|b| text(b)).unwrap_or_default();
                    o.saw(&got);
                    same("the text", &format!("x <1> ⟨({n})⟩"), got.trim())
                });
            }
        }
    }
    cx.space("characters");
    for k in KS {
        seqs(super::p01_total::CHARS.len(), 1..=cx.tier.pick(3, 4), |v| {
            let s: String = v.iter().map(|&i| super::p01_total::CHARS[i]).collect();
            let lines: Vec<&str> = s.split('\n').collect();
            case(cx, k, 1, &lines, false);
        });
    }
    cx.space("in html");
    for k in KS {
        for p in 0..PLACES {
            seqs(LINES.len(), 1..=1, |v| {
                let lines: Vec<&str> = v.iter().map(|&i| LINES[i]).collect();
                case(cx, k, p, &lines, true);
            });
        }
        seqs(LINES.len(), 2..=2, |v| {
            let lines: Vec<&str> = v.iter().map(|&i| LINES[i]).collect();
            case(cx, k, 1, &lines, true);
        });
    }
    cx.space("many lines");
    for k in KS {
        for (i, l) in LINES.iter().enumerate() {
            for n in [9, 10, 11, 33] {
                let lines: Vec<&str> = (0..n).map(|j| if j % 3 == 0 { *l } else { LINES[(i + j) % LINES.len()] }).filter(|l| *l != k.delim).collect();
                case(cx, k, 1, &lines, n == 11);
            }
        }
    }
}
