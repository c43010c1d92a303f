//! Canonical, human readable renderings of what the implementation produced.
//!
//! Every structural oracle compares one of these renderings with one computed from the abstract
//! document, so they deliberately ignore what no property speaks about: how adjacent text is cut
//! into literals, whether a replaced character is spelled as an entity, and JSON key order.
use serde_json::Value;

/// Decodes the character references the converter emits or passes through.
pub fn decode_entities(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let Some(end) = rest.find(';') else { break };
        let name = &rest[1..end];
        let c = match name {
            "lt" => Some('<'),
            "gt" => Some('>'),
            "amp" => Some('&'),
            "quot" => Some('"'),
            "nbsp" => Some('\u{a0}'),
            "mdash" => Some('—'),
            "ndash" => Some('–'),
            "plus" => Some('+'),
            "dollar" => Some('$'),
            "equals" => Some('='),
            "copy" => Some('©'),
            "reg" => Some('®'),
            "trade" => Some('™'),
            "sect" => Some('§'),
            "euro" => Some('€'),
            "yen" => Some('¥'),
            "apos" => Some('\''),
            "lsquo" => Some('‘'),
            "rsquo" => Some('’'),
            "ldquo" => Some('“'),
            "rdquo" => Some('”'),
            "frac12" => Some('½'),
            "sup2" => Some('²'),
            _ => name.strip_prefix('#').and_then(|n| match n.strip_prefix(['x', 'X']) {
                Some(h) => u32::from_str_radix(h, 16).ok(),
                None => n.parse().ok(),
            }).and_then(char::from_u32),
        };
        match c {
            Some(c) => {
                out.push(c);
                rest = &rest[end + 1..];
            }
            None => {
                out.push('&');
                rest = &rest[1..];
            }
        }
    }
    out.push_str(rest);
    out
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('"', "\\\"")
}

fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}

fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|a| a.as_slice()).unwrap_or(&[])
}

pub fn inlines(a: &[Value]) -> String {
    let mut s = String::new();
    for i in a {
        match st(i, "name") {
            "text" | "charref" | "raw" => {
                let text = decode_entities(st(i, "value"));
                s.push_str(if s.ends_with("⟨br⟩") { text.strip_prefix('\n').unwrap_or(&text) } else { &text });
            }
            // with or without the blank and the end of the line that are around it
            "linebreak" => {
                s.truncate(s.trim_end_matches(' ').len());
                s.push_str("⟨br⟩");
            }
            "span" => {
                let v = st(i, "variant");
                s.push('⟨');
                s.push_str(v);
                if st(i, "form") == "unconstrained" {
                    s.push('!');
                }
                s.push_str(&meta(i));
                s.push(':');
                s.push_str(&inlines(arr(i, "inlines")));
                s.push('⟩');
            }
            "ref" => {
                s.push('⟨');
                s.push_str(st(i, "variant"));
                s.push(' ');
                s.push_str(st(i, "target"));
                s.push_str(&meta(i));
                s.push('|');
                s.push_str(&inlines(arr(i, "inlines")));
                s.push('⟩');
            }
            other => s.push_str(&format!("⟨?{other}⟩")),
        }
    }
    s
}

pub fn meta(v: &Value) -> String {
    let Some(m) = v.get("metadata") else { return String::new() };
    let mut parts: Vec<String> = vec![];
    if let Some(o) = m.get("attributes").and_then(|x| x.as_object()) {
        let mut kv: Vec<_> = o.iter().collect();
        kv.sort_by(|a, b| a.0.cmp(b.0));
        for (k, v) in kv {
            parts.push(format!("{k}={}", v.as_str().unwrap_or("?")));
        }
    }
    for r in arr(m, "roles") {
        parts.push(format!(".{}", r.as_str().unwrap_or("?")));
    }
    for r in arr(m, "options") {
        parts.push(format!("%{}", r.as_str().unwrap_or("?")));
    }
    if parts.is_empty() {
        String::new()
    } else {
        format!(" [{}]", parts.join(" "))
    }
}

pub fn block(v: &Value, ind: usize, out: &mut String) {
    let name = st(v, "name");
    let m = meta(v);
    let q = |k: &str| format!("\"{}\"", esc(&inlines(arr(v, k))));
    let mut line = match name {
        "section" => format!("section {} {}", v["level"], q("title")),
        "list" => format!("list {}", st(v, "variant")),
        "dlist" => "dlist".into(),
        "listItem" => format!("item {} {}", st(v, "marker"), q("principal")),
        "dlistItem" => format!("ditem {} {}", q("terms"), q("principal")),
        "paragraph" => format!("para {}", q("inlines")),
        // the line breaks next to the delimiters are framing, not content
        "listing" | "literal" | "pass" | "verse" => {
            let text = inlines(arr(v, "inlines"));
            let text = text.strip_prefix('\n').unwrap_or(&text);
            format!("{name} \"{}\"", esc(text.strip_suffix('\n').unwrap_or(text)))
        }
        "tableCell" => format!("cell \"{}\"", esc(inlines(arr(v, "inlines")).trim())),
        "break" => format!("break {}", st(v, "variant")),
        "image" => format!("image {}", st(v, "target")),
        "admonition" => format!("admonition {}", st(v, "variant")),
        other => other.to_string(),
    };
    if name != "section" && !arr(v, "title").is_empty() {
        line.push_str(&format!(" title={}", q("title")));
    }
    if !arr(v, "caption").is_empty() {
        line.push_str(&format!(" title={}", q("caption")));
    }
    line.push_str(&m);
    out.push_str(&"  ".repeat(ind));
    out.push_str(&line);
    out.push('\n');
    for c in arr(v, "items") {
        block(c, ind + 1, out);
    }
    let mut children = arr(v, "blocks");
    if name == "admonition" {
        // a delimited admonition may keep the example block that delimits it, or not
        if let [only] = children {
            if st(only, "name") == "example" && meta(only).is_empty() && arr(only, "title").is_empty() {
                children = arr(only, "blocks");
            }
        }
    }
    for c in children {
        block(c, ind + 1, out);
    }
}

/// The whole document, one node per line.
pub fn doc(v: &Value) -> String {
    let mut out = String::new();
    if let Some(h) = v.get("header") {
        out.push_str(&format!("header \"{}\"\n", esc(&inlines(arr(h, "title")))));
    }
    if let Some(o) = v.get("attributes").and_then(|x| x.as_object()) {
        let mut kv: Vec<_> = o.iter().collect();
        kv.sort_by(|a, b| a.0.cmp(b.0));
        for (k, v) in kv {
            out.push_str(&format!("attr {k}={}\n", v.as_str().unwrap_or("?")));
        }
    }
    for b in arr(v, "blocks") {
        block(b, 0, &mut out);
    }
    out
}
