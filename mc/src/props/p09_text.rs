//! No text is lost, repeated or moved: every word of the source is in the document once, in order.
use super::*;
use crate::engine::*;
use crate::{html, sut};
use serde_json::Value;

/// What is put between words. None of these hides the words around it from the reader; the few
/// combinations that do are told apart in `hides`.
pub const BETWEEN: [&str; 95] = [
    " ", "\n", "\n\n", "*", "_", "`", "#", "**", "__", "``", "##", "^", "~", "+", "++", "[", "]", "(", ")", "{", "}",
    "<", ">", "&", ";", ":", "::", ":: ", "|", " | ", "\n|", "\"", "'", "\"`", "`\"", " '`", "`' ", "--", "...", " -> ", "=",
    "\n* ", "\n. ", "\n<1> ", "\n== ", "\n=== ", "\n----\n", "\n====\n", "\n--\n", "\n****\n", "\n____\n", "\n....\n",
    "\n++++\n", "\n|===\n", " +\n", "\n+\n", " footnote:[", " pass:[", " http://x.y[", "\nNOTE: ", " [.r]#", "\n'''\n",
    "\n<<<\n", " <1>\n", "&lt;", "(C)", "'s ", "\\", "!", "é", "—", "tag::", " image:", "http", "//", "\n[verse]\n____\n", "\n[NOTE]\n====\n",
    "\n\n== ", "\n.", "\n ", "\n[", "]\n", "\n:", "\n*", "\n#", "\n=", "\n-", "\n- ", "\na. ", "\n** ", "\n.. ", "\t", "::\n", ".", ",",
];

/// An attribute entry
fn entry(l: &str) -> bool {
    l.strip_prefix(':').and_then(|l| l.split_once(':')).is_some_and(|(name, _)| !name.is_empty() && !name.contains(' '))
}

/// Texts in which some words are not meant to be read: attribute lists and entries, identifiers,
/// comments and targets.
pub fn hides(s: &str) -> bool {
    let lines: Vec<&str> = s.lines().collect();
    // neither headings nor breaks have titles, and nothing has two
    let lost = lines.iter().enumerate().any(|(i, l)| {
        let next = lines[i + 1..].iter().find(|l| !l.is_empty());
        l.starts_with('.') && next.is_some_and(|n| ["=", "'''", "<<<", ".w", ".."].iter().any(|x| n.starts_with(x)))
    });
    lost || lines.iter().any(|l| {
        let after_marker = l.trim_start_matches(['|', ' ']);
        l.starts_with('[') && l.ends_with(']')
            || l.starts_with("//")
            || after_marker.starts_with("//")
            || entry(l)
            || entry(after_marker)
            || l.contains("<<") && l.contains(">>")
            || l.contains("image:") && l.contains('[') && l.contains(']')
            || l.contains("tag::") && l.contains('[') && l.contains(']')
            // roles
            || l.contains("[.") && l.contains(']')
    })
}

pub fn texts(v: &Value, out: &mut String) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| texts(x, out)),
        Value::Object(o) => {
            for k in ["header", "title", "caption", "terms", "principal", "value", "inlines", "items", "blocks"] {
                match o.get(k) {
                    Some(Value::String(s)) => *out += s,
                    Some(x) => {
                        texts(x, out);
                        if k != "inlines" {
                            out.push(' ');
                        }
                    }
                    None => {}
                }
            }
        }
        _ => {}
    }
}

/// The words in a text: everything here is written as w, a letter and a number
pub fn words(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i] == 'w' && c.get(i + 1).is_some_and(|x| x.is_ascii_digit()) {
            let mut j = i + 1;
            while j < c.len() && c[j].is_ascii_digit() {
                j += 1;
            }
            out.push(c[i..j].iter().collect());
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

fn check(src: &str, html: bool, o: &mut Obs) -> Result<(), String> {
    o.ran();
    let a = match sut::parse(src) {
        Ok(a) => a,
        Err(_) => {
            o.hit("rejected");
            return Ok(());
        }
    };
    o.hit("accepted");
    let want = words(src);
    let mut got = String::new();
    let j = sut::json(&a);
    texts(&j, &mut got);
    o.saw(&got);
    if words(&got) != want {
        return Err(format!("the words are {want:?}, the document has {:?}\n{}", words(&got), crate::canon::doc(&j)));
    }
    if html {
        o.ran();
        let text = sut::html(&a)?;
        let evs = html::read(&text)?;
        let got: String = html::body(&evs).iter().map(|e| if let html::Ev::Text(s) = e { s.as_str() } else { " " }).collect();
        if words(&got) != want {
            return Err(format!("the words are {want:?}, the html has {:?}\n{text}", words(&got)));
        }
    }
    Ok(())
}

pub fn text(v: &[usize], lead: bool) -> String {
    let mut s = String::new();
    if lead {
        s += "w0";
    }
    for (i, &k) in v.iter().enumerate() {
        s += BETWEEN[k];
        s += &format!("w{}", i + 1);
    }
    s
}

pub fn run(cx: &mut Cx) {
    cx.space("words with markup between them");
    seqs(BETWEEN.len(), 1..=cx.tier.pick(3, 4), |v| {
        for lead in [true, false] {
            let s = text(v, lead);
            if !hides(&s) && cx.mine() {
                cx.check(v.len(), &s, |o| check(&s, false, o));
            }
        }
    });
    cx.space("with a newline at the end");
    seqs(BETWEEN.len(), 1..=cx.tier.pick(2, 3), |v| {
        for lead in [true, false] {
            let s = text(v, lead) + "\n";
            // a title at the end is of nothing
            let title = s.lines().last().is_some_and(|l| l.starts_with(".w"));
            if !hides(&s) && !title && cx.mine() {
                cx.check(v.len(), &s, |o| check(&s, false, o));
            }
        }
    });
    cx.space("in html");
    seqs(BETWEEN.len(), 1..=cx.tier.pick(2, 3), |v| {
        let s = text(v, true);
        // passed through as it is, a mark would be html
        let raw = s.contains("++++") || s.contains("pass:");
        if !hides(&s) && !raw && cx.mine() {
            cx.check(v.len(), &s, |o| check(&s, true, o));
        }
    });
    cx.space("words that are character references");
    seqs(BETWEEN.len(), 1..=cx.tier.pick(2, 3), |v| {
        // each of the words, or all of them
        for n in 0..v.len() + 2 {
            let mut s = String::from(if n == 0 || n > v.len() { "&w0;" } else { "w0" });
            for (i, &k) in v.iter().enumerate() {
                s += BETWEEN[k];
                s += &if n == i + 1 || n > v.len() { format!("&w{};", i + 1) } else { format!("w{}", i + 1) };
            }
            if !hides(&s) && cx.mine() {
                cx.check(v.len(), &s, |o| check(&s, false, o));
            }
        }
    });
    cx.space("words that are almost character references, attribute entries and macros");
    const ALMOST: [&str; 16] = [
        "&w-w;", "&w w;", "&#w;", "&w", ":w w: w", ": w: w", ":w", "{w w}", "{w", "<w>", "<<w w>>", "[w", "pass:w]", "footnote:w[", "image: w[]", "&w;w;",
    ];
    seqs(BETWEEN.len(), 0..=cx.tier.pick(1, 2), |v| {
        for a in ALMOST {
            for at in 0..=v.len() {
                let mut n = 0;
                let mut s = String::new();
                for i in 0..=v.len() {
                    if i > 0 {
                        s += BETWEEN[v[i - 1]];
                    }
                    let piece = if i == at { a } else { "w" };
                    for c in piece.split_inclusive('w') {
                        s += c;
                        if c.ends_with('w') {
                            s += &n.to_string();
                            n += 1;
                        }
                    }
                }
                if !hides(&s) && cx.mine() {
                    cx.check(v.len() + 1, &s, |o| check(&s, !s.contains("++") && !s.contains("pass:"), o));
                }
            }
        }
    });
    cx.space("the same again and again");
    for a in 0..BETWEEN.len() {
        for b in 0..BETWEEN.len() {
            for n in [4, 9] {
                let v: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { a } else { b }).collect();
                let s = text(&v, true);
                if !hides(&s) && cx.mine() {
                    cx.check(n, &s, |o| check(&s, false, o));
                }
            }
        }
    }
}
