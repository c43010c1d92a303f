//! Whatever is parsed, the graph is one of the kind that is defined: each node in a place for it.
use super::p01_total::{CHARS, FRAGS, THEMES};
use super::*;
use crate::engine::*;
use crate::sut;
use serde_json::{Map, Value};

/// Where a node is
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    /// of a document or a section of this level
    Body(u64),
    Block,
    Items,
    Terms,
    Cells,
    Inline,
}

type Found = Result<(), String>;

fn list<'a>(o: &'a Map<String, Value>, k: &str) -> Result<&'a [Value], String> {
    match o.get(k) {
        None => Ok(&[]),
        Some(Value::Array(a)) => Ok(a),
        Some(x) => Err(format!("{k} is {x}")),
    }
}

fn text<'a>(o: &'a Map<String, Value>, k: &str) -> Result<&'a str, String> {
    o.get(k).and_then(|x| x.as_str()).ok_or_else(|| format!("no {k} in {o:?}"))
}

/// Two places in the source, the first not after the second
fn location(o: &Map<String, Value>, src: &[&str], exact: bool) -> Found {
    let l = list(o, "location")?;
    let at = |i: usize| -> Option<(u64, u64)> { Some((l.get(i)?.get("line")?.as_u64()?, l.get(i)?.get("col")?.as_u64()?)) };
    match (l.len(), at(0), at(1)) {
        (2, Some(a), Some(b)) => {
            if a > b || a.0 == 0 || a.1 == 0 {
                return Err(format!("from {a:?} to {b:?}: {o:?}"));
            }
            let inside = |(line, col): (u64, u64)| src.get(line as usize - 1).is_some_and(|l| col as usize <= l.len() + 1);
            if exact && !(inside(a) && inside(b)) {
                return Err(format!("from {a:?} to {b:?}, which is not in the source: {o:?}"));
            }
            Ok(())
        }
        _ => Err(format!("the location of {o:?}")),
    }
}

fn metadata(o: &Map<String, Value>) -> Found {
    let Some(m) = o.get("metadata") else { return Ok(()) };
    let m = m.as_object().ok_or("metadata")?;
    for (k, v) in m {
        match (k.as_str(), v) {
            ("attributes", Value::Object(a)) if a.values().all(|v| v.is_string()) => {}
            ("options" | "roles", Value::Array(a)) if a.iter().all(|v| v.as_str().is_some_and(|s| !s.is_empty())) => {}
            ("location", Value::Array(_)) => {}
            ("id", Value::String(_)) => {}
            _ => return Err(format!("metadata {k}: {v}")),
        }
    }
    Ok(())
}

/// A name, or a number in decimal or hexadecimal
fn reference(s: &str) -> bool {
    let Some(s) = s.strip_prefix('&').and_then(|s| s.strip_suffix(';')) else { return false };
    match (s.strip_prefix("#x").or(s.strip_prefix("#X")), s.strip_prefix('#')) {
        (Some(s), _) => !s.is_empty() && s.chars().all(|c| c.is_ascii_hexdigit()),
        (_, Some(s)) => !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()),
        _ => s.starts_with(char::is_alphabetic) && s.chars().all(char::is_alphanumeric),
    }
}

struct Graph<'a> {
    src: Vec<&'a str>,
    exact: bool,
}

impl Graph<'_> {
    fn all(&self, v: &[Value], at: At) -> Found {
        v.iter().try_for_each(|x| self.node(x, at))
    }

    fn inlines(&self, v: &[Value]) -> Found {
        self.all(v, At::Inline)
    }

    fn keys(&self, o: &Map<String, Value>, needs: &[&str], may: &[&str]) -> Found {
        for k in needs.iter().chain(&["name", "location"]) {
            if !o.contains_key(*k) {
                return Err(format!("no {k} in {o:?}"));
            }
        }
        for k in o.keys() {
            if !["name", "type", "location", "metadata"].contains(&k.as_str()) && !needs.contains(&k.as_str()) && !may.contains(&k.as_str()) {
                return Err(format!("{k} in {o:?}"));
            }
        }
        metadata(o)?;
        location(o, &self.src, self.exact)
    }

    fn node(&self, v: &Value, at: At) -> Found {
        let o = v.as_object().ok_or_else(|| format!("not a node: {v}"))?;
        let name = text(o, "name")?;
        let kind = o.get("type").or(o.get("node_type")).and_then(|x| x.as_str()).unwrap_or_default();
        let wrong = || Err(format!("{name} ({kind}) in {at:?}: {v}"));
        let is_block = matches!(at, At::Body(_) | At::Block);
        let form = || -> Found {
            match (o.get("form").and_then(|x| x.as_str()), o.get("delimiter")) {
                (Some("delimited"), None) if name == "quote" => Ok(()),
                (Some("delimited"), Some(Value::String(_))) | (Some("paragraph" | "indented" | "macro") | None, None) => Ok(()),
                x => Err(format!("form and delimiter {x:?} of {o:?}")),
            }
        };
        match name {
            "text" | "charref" | "raw" if at == At::Inline && kind == "string" => {
                self.keys(o, &["value"], &[])?;
                match text(o, "value")? {
                    "" => Err(format!("no text: {v}")),
                    x if name == "charref" && !reference(x) => Err(format!("no character reference: {v}")),
                    _ => Ok(()),
                }
            }
            "span" if at == At::Inline && kind == "inline" => {
                self.keys(o, &["variant", "form", "inlines"], &[])?;
                let (v, f) = (text(o, "variant")?, text(o, "form")?);
                if !["strong", "emphasis", "code", "mark", "superscript", "subscript", "footnote"].contains(&v)
                    || !["constrained", "unconstrained"].contains(&f)
                {
                    return wrong();
                }
                self.inlines(list(o, "inlines")?)
            }
            "ref" if at == At::Inline && kind == "inline" => {
                self.keys(o, &["variant", "target", "inlines"], &[])?;
                match (text(o, "variant")?, text(o, "target")?) {
                    ("link", t) if t.starts_with("http") => {}
                    ("xref" | "image", _) => {}
                    _ => return wrong(),
                }
                self.inlines(list(o, "inlines")?)
            }
            "linebreak" if at == At::Inline && kind == "inline" => self.keys(o, &[], &[]),
            _ if kind != "block" => wrong(),
            "section" => {
                let outer = match at {
                    At::Body(l) => l,
                    At::Block => 0,
                    _ => return wrong(),
                };
                let Some(level) = o.get("level").and_then(|l| l.as_u64()) else { return wrong() };
                if level <= outer || level > 5 {
                    return wrong();
                }
                self.keys(o, &["title", "level", "blocks"], &["id", "reftext"])?;
                self.inlines(list(o, "title")?)?;
                self.all(list(o, "blocks")?, At::Body(level))
            }
            "paragraph" | "listing" | "literal" | "pass" | "verse" | "stem" if is_block => {
                self.keys(o, &["inlines"], &["title", "form", "delimiter", "id", "reftext"])?;
                form()?;
                self.inlines(list(o, "title")?)?;
                let inlines = list(o, "inlines")?;
                if name == "paragraph" && inlines.is_empty() {
                    return wrong();
                }
                self.inlines(inlines)
            }
            "example" | "sidebar" | "open" | "quote" | "admonition" if is_block => {
                self.keys(o, &["blocks"], &["title", "form", "delimiter", "id", "reftext", "variant"])?;
                form()?;
                if (name == "admonition") != o.contains_key("variant") {
                    return wrong();
                }
                self.inlines(list(o, "title")?)?;
                self.all(list(o, "blocks")?, At::Block)
            }
            "table" if is_block => {
                self.keys(o, &["blocks"], &["title", "form", "delimiter", "id", "reftext"])?;
                form()?;
                self.inlines(list(o, "title")?)?;
                self.all(list(o, "blocks")?, At::Cells)
            }
            "tableCell" if at == At::Cells => {
                self.keys(o, &["inlines"], &["node_type"])?;
                self.inlines(list(o, "inlines")?)
            }
            "list" if is_block => {
                self.keys(o, &["variant", "marker", "items"], &["title", "id", "reftext"])?;
                let (variant, marker) = (text(o, "variant")?, text(o, "marker")?);
                let items = list(o, "items")?;
                if !["unordered", "ordered", "callout"].contains(&variant) || items.is_empty() {
                    return wrong();
                }
                // those of callouts are numbered
                let is_callout = |i: &Value| i["marker"].as_str().is_some_and(|m| m.starts_with('<') && m.ends_with('>'));
                let same = |i: &Value| i["marker"] == marker || is_callout(i);
                if !items.iter().all(same) || items.iter().any(is_callout) && !items.iter().all(is_callout) {
                    return Err(format!("other markers: {v}"));
                }
                self.inlines(list(o, "title")?)?;
                self.all(items, At::Items)
            }
            "listItem" if at == At::Items => {
                self.keys(o, &["marker", "principal"], &["blocks"])?;
                self.inlines(list(o, "principal")?)?;
                self.all(list(o, "blocks")?, At::Block)
            }
            "dlist" if is_block => {
                self.keys(o, &["marker", "items"], &["title", "id", "reftext"])?;
                let items = list(o, "items")?;
                if items.is_empty() {
                    return wrong();
                }
                self.inlines(list(o, "title")?)?;
                self.all(items, At::Terms)
            }
            "dlistItem" if at == At::Terms => {
                self.keys(o, &["marker", "terms"], &["principal", "blocks"])?;
                self.inlines(list(o, "terms")?)?;
                self.inlines(list(o, "principal")?)?;
                self.all(list(o, "blocks")?, At::Block)
            }
            "image" if is_block => {
                self.keys(o, &["form", "target"], &["caption", "title", "id", "reftext"])?;
                self.inlines(list(o, "caption")?)
            }
            "break" if is_block => {
                self.keys(o, &["variant"], &[])?;
                match text(o, "variant")? {
                    "thematic" | "page" => Ok(()),
                    _ => wrong(),
                }
            }
            _ => wrong(),
        }
    }
}

pub fn check(src: &str, exact: bool, o: &mut Obs) -> Found {
    o.ran();
    let Ok(a) = sut::parse(src) else {
        o.hit("rejected");
        return Ok(());
    };
    let v = sut::json(&a);
    o.saw(&v.to_string());
    let d = v.as_object().ok_or("not an object")?;
    for (k, x) in d {
        let ok = match k.as_str() {
            "name" => x == "document",
            "type" => x == "block",
            "blocks" | "location" => x.is_array(),
            "attributes" => x.as_object().is_some_and(|a| a.values().all(|v| v.is_string())),
            "header" => x.is_object(),
            _ => false,
        };
        if !ok {
            return Err(format!("{k} of the document is {x}"));
        }
    }
    o.hit(if list(d, "blocks")?.is_empty() { "empty" } else { "accepted" });
    // the newline after a term is not counted, so everything after it seems to be further up
    let g = Graph { src: src.split('\n').collect(), exact: exact && !src.contains("::\n") };
    if let Some(h) = d.get("header").and_then(|h| h.as_object()) {
        location(h, &g.src, exact)?;
        g.inlines(list(h, "title")?)?;
    }
    g.all(list(d, "blocks")?, At::Body(0))
}

pub fn run(cx: &mut Cx) {
    let all = |cx: &mut Cx, abc: &[&str], lens: std::ops::RangeInclusive<usize>| {
        seqs(abc.len(), lens, |v| {
            if cx.mine() {
                let s: String = v.iter().map(|&i| abc[i]).collect();
                cx.check(v.len(), &s, |o| check(&s, true, o));
            }
        })
    };
    cx.space("characters");
    all(cx, &CHARS, 0..=cx.tier.pick(4, 5));
    cx.space("fragments");
    all(cx, &FRAGS, 1..=cx.tier.pick(3, 4));
    cx.space("longer texts of a few symbols");
    for theme in &THEMES {
        all(cx, theme, 5..=cx.tier.pick(6, 7));
    }
    cx.space("words with markup between them");
    seqs(super::p09_text::BETWEEN.len(), 1..=cx.tier.pick(3, 4), |v| {
        if cx.mine() {
            let s = super::p09_text::text(v, true);
            cx.check(v.len(), &s, |o| check(&s, true, o));
        }
    });
    cx.space("character references and what is almost one");
    all(cx, &["&", ";", "#", "x", "a", "1", "-", "é", "g", " "], 1..=cx.tier.pick(5, 6));
    cx.space("blocks of all kinds");
    seqs(KINDS, 1..=cx.tier.pick(3, 4), |ks| {
        if cx.mine() {
            let w = &mut Words::default();
            let s = source(&ks.iter().map(|&k| kind(k, w)).collect::<Vec<_>>());
            cx.check(ks.len(), &s, |o| check(&s, true, o));
        }
    });
}
