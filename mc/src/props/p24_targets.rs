//! Links and images lead to exactly the target that was written, and show the text that was.
use super::p08_spans::{atom, deep, deep_one_line, one_line, spot, ATOMS, DEEP, SPOTS};
use super::*;
use crate::engine::*;
use crate::html::{self, Ev};
use crate::sut;
use serde_json::Value;

/// What targets are made of
const PIECES: [&str; 26] = [
    "a", "é", ".b", "/", "-", "_", "~", "?q=1", "&r", "#f", ":8", "(c)", "%20", "+", "=", ";", ",", "!", "*", "'", "@", "$",
    "&lt;", "http://", "N", "😀",
];

fn refs(v: &Value, out: &mut Vec<(String, String, String)>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| refs(x, out)),
        Value::Object(o) => {
            if o.get("name").is_some_and(|n| n == "ref" || n == "image") {
                let mut text = String::new();
                super::p09_text::texts(v, &mut text);
                let s = |k: &str| o.get(k).and_then(|x| x.as_str()).unwrap_or("image").to_string();
                out.push((s("variant"), s("target"), text.trim_end().into()));
            }
            o.iter().filter(|(k, _)| *k != "metadata").for_each(|(_, x)| refs(x, out));
        }
        _ => {}
    }
}

/// The same of the page: links with their text, images with theirs
fn shown(evs: &[Ev]) -> Vec<(String, String, String)> {
    let mut out: Vec<(String, String, String)> = vec![];
    let mut open = vec![];
    for e in html::body(evs) {
        let get = |a: &[(String, String)], k: &str| a.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone()).unwrap_or_default();
        match e {
            Ev::Open(n, a) if n == "a" => {
                open.push(out.len());
                out.push(("link".into(), get(a, "href"), String::new()));
            }
            Ev::Open(n, a) if n == "img" => out.push(("image".into(), get(a, "src"), get(a, "alt"))),
            Ev::Close(n) if n == "a" => {
                open.pop();
            }
            Ev::Text(s) => {
                for &i in &open {
                    out[i].2 += &crate::canon::decode_entities(s);
                }
            }
            _ => {}
        }
    }
    out
}

/// Links and images expected: kind, target, text in the graph, text in the page
type Want = Vec<(&'static str, String, String, String)>;

fn check(src: &str, want: &Want, rest: Option<&str>, html: bool, o: &mut Obs) -> Result<(), String> {
    o.ran();
    let a = sut::parse(src)?;
    let j = sut::json(&a);
    let mut got = vec![];
    refs(&j["blocks"], &mut got);
    let list = |v: Vec<[&str; 3]>| v.iter().map(|r| r.join(" ")).collect::<Vec<_>>().join("\n");
    same(
        "the references",
        &list(want.iter().map(|w| [w.0, &w.1, if w.0 == "image" { "" } else { &w.2 }]).collect()),
        &list(got.iter().map(|g| [g.0.as_str(), &g.1, if g.0 == "image" { "" } else { &g.2 }]).collect()),
    )?;
    o.hit(if want.is_empty() { "nothing to refer to" } else { "references" });
    if !html {
        o.saw(&j["blocks"].to_string());
        return Ok(());
    }
    let page = sut::html(&a)?;
    let evs = html::read(&page)?;
    html::balanced(&evs)?;
    let got = shown(&evs);
    // character references are what they refer to
    let d = crate::canon::decode_entities;
    same(
        "the page",
        &d(&list(want.iter().map(|w| [w.0, &w.1, &w.3]).collect())),
        &list(got.iter().map(|g| [g.0.as_str(), &g.1, &g.2]).collect()),
    )?;
    if let Some(rest) = rest {
        let text: String = html::body(&evs).iter().map(|e| if let Ev::Text(s) = e { s.as_str() } else { "" }).collect();
        same("all of the text", &d(rest), crate::canon::decode_entities(&text).trim())?;
    }
    o.saw(&page);
    Ok(())
}

pub fn run(cx: &mut Cx) {
    let in_html = cx.tier.pick(2, 3);
    cx.space("targets");
    seqs(PIECES.len(), 0..=cx.tier.pick(3, 4), |v| {
        let rest: String = v.iter().map(|&i| PIECES[i]).collect();
        for start in ["http://x", "https://x.org", "http://1.2", "https://é", "http://X"] {
            if start.len() < 13 && start != "http://x" && v.len() > 1 {
                continue;
            }
            let target = format!("{start}{rest}");
            let bare = target.trim_end_matches(|c: char| c.is_ascii_punctuation()).to_string();
            let marks = ["**", "__", "~~", "++"].iter().any(|m| target.contains(m));
            for form in 0..6 {
                // in between marks that are there twice is something else
                if form > 1 && (marks || target != bare && form == 2) {
                    continue;
                }
                let (src, to, text, all) = match form {
                    0 => (format!("w {target}[v u]x"), &target, "v u", "w v ux".to_string()),
                    1 => (format!("w {target}[] x"), &target, "", format!("w {target} x")),
                    2 => (target.clone(), &bare, "", target.clone()),
                    3 => (format!("w {target} x"), &bare, "", format!("w {target} x")),
                    4 => (format!("{target}.\nw"), &bare, "", format!("{target}.\nw")),
                    _ => (format!("({target}), w"), &bare, "", format!("({target}), w")),
                };
                if form > 1 && (target.contains("&lt;") || src.contains("++") || src.ends_with("+\n")) {
                    continue;
                }
                if cx.mine() {
                    let want = vec![("link", to.clone(), text.to_string(), if text.is_empty() { to.clone() } else { text.into() })];
                    cx.check(v.len(), &src, |o| {
                        // which is a dash, or marks, when it is outside of the target
                        let tail = &target[if form > 1 { bare.len() } else { target.len() }..];
                        let marks = tail.contains("--") || "_*~+".chars().any(|c| tail.matches(c).count() > 1);
                        check(&src, &want, Some(all.as_str()).filter(|_| !marks), v.len() <= in_html, o)
                    });
                }
            }
        }
    });
    cx.space("texts, anywhere");
    for p in 0..SPOTS + DEEP {
        seqs(ATOMS, 1..=cx.tier.pick(2, 3), |v| {
            let line = if p < SPOTS { one_line(p) } else { deep_one_line(p - SPOTS) };
            // the ones with an image have a target more
            if p == 17 || p == SPOTS + 28 || v.contains(&16) || v.contains(&17) || line && v.contains(&18) || p >= SPOTS && v.len() > 1 || !cx.mine() {
                return;
            }
            let w = &mut Words::default();
            let mut i = w.w();
            for &a in v {
                i.extend(t(" "));
                i.extend(atom(a, w));
            }
            let text = inl_text(&i);
            let to = "https://x-y.org/a_b?c=d&e".to_string();
            let i = [w.w(), t(" "), vec![I::Link(to.clone(), i), I::T(" ".into())], w.w(), t(" "), vec![I::Bare(to.clone())]].concat();
            let doc = if p < SPOTS { spot(p, i, w) } else { deep(p - SPOTS, i, w) };
            let src = source(&doc);
            let plain: String = text.replace('<', "&lt;");
            let want = vec![("link", to.clone(), plain, text), ("link", to.clone(), String::new(), to.clone())];
            cx.check(v.len(), &src, |o| check(&src, &want, None, v.len() < 2, o));
        });
    }
    cx.space("in formatting, next to anything");
    for k in 0..Sp::ALL.len() {
        for un in [false, true] {
            for form in 0..4 {
                for after in ["", " z", ".", ", z", "\nz"] {
                    // sub- and superscript don't come in pairs
                    if un && k > 3 || !cx.mine() {
                        continue;
                    }
                    let m = Sp::ALL[k].mark().repeat(if un { 2 } else { 1 });
                    let to = "http://x.org/a-b";
                    let (inner, text) = match form {
                        0 => (to.to_string(), ""),
                        1 => (format!("{to}[v u]"), "v u"),
                        2 => (format!("y {to}"), ""),
                        _ => (format!("y {to}[v] u"), "v"),
                    };
                    let src = format!("w {m}{inner}{m}{after}\n");
                    let want = vec![("link", to.to_string(), text.into(), if text.is_empty() { to.into() } else { text.to_string() })];
                    let all = format!("w {}{after}", inner.replace(&format!("{to}[v"), "v").replace(']', ""));
                    cx.check(2, &src, |o| check(&src, &want, Some(all.trim()), true, o));
                }
            }
        }
    }
    cx.space("images");
    const ALTS: [&str; 12] = ["", "sofa", "a b", "é 😀", "\"a, b\"", "a & b", "<i>", "*b*", "it's", "http://x.org", "x:y", "&lt;"];
    const MORE: [&str; 5] = ["", ",10", ",10,20", ",width=10", ",role=\"r s\""];
    seqs(PIECES.len(), 1..=cx.tier.pick(2, 3), |v| {
        let target: String = v.iter().map(|&i| PIECES[i]).collect();
        for alt in ALTS {
            for more in MORE {
                for form in 0..4 {
                    // only so much of everything
                    if v.len() > 1 && alt.len() > 4 && more.len() > 3 {
                        continue;
                    }
                    // what comes after the double colon must not be one
                    if target.starts_with(':') && form < 2 {
                        continue;
                    }
                    let named = form % 2 == 1;
                    if !cx.mine() {
                        continue;
                    }
                    let attrs = match named {
                        true => {
                            let alt = if alt.is_empty() { String::new() } else { format!("alt={alt}") };
                            let more = more.replace(",10,20", ",height=3").replace(",10", ",height=3");
                            format!("{alt}{more}").trim_start_matches(',').to_string()
                        }
                        false => format!("{alt}{more}"),
                    };
                    let src = match form {
                        0 | 1 => format!("w image:{target}[{attrs}] x"),
                        _ => format!("image::{target}[{attrs}]"),
                    };
                    let text = alt.trim_matches('"').to_string();
                    let want = vec![("image", target.clone(), text.clone(), text)];
                    cx.check(v.len(), &src, |o| check(&src, &want, Some(if form < 2 { "w  x" } else { "" }), v.len() < in_html, o));
                }
            }
        }
    });
    cx.space("not a link, not an image");
    const NOT: [&str; 16] = [
        "http", "https", "http:", "http:/", "http://", "https://", "httpd", "ahttp", "ftp://x.org", "image", "image:", "image: a", "image:a",
        "image::a", "http:x", "//x.org",
    ];
    for not in NOT {
        for before in ["", "a ", "(", "a\n", "*"] {
            for after in ["", " b", ".", " b]", ")", "*"] {
                let src = format!("{before}{not}{after}\n");
                // comments, the mark that pairs, and what would be inside of the brackets
                if src.starts_with("//") || src.contains("\n//") || src.matches('*').count() == 2 || src.starts_with("* ") || !cx.mine() {
                    continue;
                }
                cx.check(1, &src, |o| check(&src, &vec![], Some(src.trim()), true, o));
            }
        }
    }
}
