//! A small HTML reader, and the canonical form in which two documents are compared.
use crate::canon::decode_entities;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Open(String, Vec<(String, String)>),
    Close(String),
    Text(String),
}

const VOID: &[&str] = &["br", "hr", "img", "meta"];
const INLINE: &[&str] = &["a", "code", "em", "img", "span", "strong", "sub", "sup", "b", "i", "u"];

/// Reads tags and text; malformed markup is an error.
pub fn read(s: &str) -> Result<Vec<Ev>, String> {
    let mut out = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let Some(i) = rest.find('<') else {
            out.push(Ev::Text(rest.into()));
            break;
        };
        if i > 0 {
            out.push(Ev::Text(rest[..i].into()));
        }
        rest = &rest[i..];
        if rest.starts_with("<!") {
            let e = rest.find('>').ok_or("unterminated declaration")?;
            rest = &rest[e + 1..];
            continue;
        }
        let bad = || format!("not markup: {:?}", rest.chars().take(40).collect::<String>());
        let close = rest.starts_with("</");
        let mut r = &rest[if close { 2 } else { 1 }..];
        let n = r.find(|c: char| !c.is_ascii_alphanumeric()).ok_or_else(bad)?;
        if n == 0 {
            return Err(bad());
        }
        let name = r[..n].to_string();
        r = &r[n..];
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let ws = r.len() - r.trim_start().len();
            r = r.trim_start();
            if let Some(x) = r.strip_prefix("/>").or(r.strip_prefix('>')) {
                r = x;
                break;
            }
            let n = r.find(|c: char| !c.is_ascii_alphanumeric() && c != '-').ok_or_else(bad)?;
            if n == 0 || close || ws == 0 && attrs.is_empty() {
                return Err(bad());
            }
            let k = r[..n].to_string();
            r = r[n..].strip_prefix("=\"").ok_or_else(bad)?;
            let e = r.find('"').ok_or_else(bad)?;
            attrs.push((k, decode_entities(&r[..e])));
            r = &r[e + 1..];
        }
        rest = r;
        attrs.sort();
        if attrs.windows(2).any(|w| w[0].0 == w[1].0) {
            return Err(format!("attribute given twice in <{name}>"));
        }
        out.push(if close { Ev::Close(name) } else { Ev::Open(name, attrs) });
    }
    Ok(out)
}

/// Checks that text has no characters that should have been escaped.
pub fn escaped(s: &str) -> Result<(), String> {
    let (mut in_tag, mut in_value) = (false, false);
    for (i, c) in s.char_indices() {
        let rest = &s[i..];
        match c {
            '"' if in_tag => in_value = !in_value,
            '<' if !in_tag => in_tag = true,
            '>' if in_tag && !in_value => in_tag = false,
            '<' | '>' => return Err(format!("not escaped: {:?}", rest.chars().take(40).collect::<String>())),
            '&' => {
                let name = rest[1..].split(';').next().filter(|n| n.len() + 1 < rest.len()).unwrap_or("");
                let is = match (name.strip_prefix("#x").or(name.strip_prefix("#X")), name.strip_prefix('#')) {
                    (Some(h), _) => !h.is_empty() && h.chars().all(|c| c.is_ascii_hexdigit()),
                    (_, Some(d)) => !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()),
                    _ => name.starts_with(|c: char| c.is_ascii_alphabetic()) && name.chars().all(|c| c.is_ascii_alphanumeric()),
                };
                if !is {
                    return Err(format!("not escaped: {:?}", rest.chars().take(40).collect::<String>()));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// Checks that tags nest.
pub fn balanced(evs: &[Ev]) -> Result<(), String> {
    let mut st: Vec<&str> = vec![];
    for e in evs {
        match e {
            Ev::Open(n, _) if !VOID.contains(&n.as_str()) => st.push(n),
            Ev::Close(n) => match st.pop() {
                Some(x) if x == n => {}
                x => return Err(format!("</{n}> closes {x:?}")),
            },
            _ => {}
        }
    }
    if st.is_empty() { Ok(()) } else { Err(format!("never closed: {st:?}")) }
}

fn is_block(e: Option<&Ev>) -> bool {
    match e {
        None => true,
        Some(Ev::Open(n, _)) | Some(Ev::Close(n)) => !INLINE.contains(&n.as_str()),
        Some(Ev::Text(_)) => false,
    }
}

fn squeeze(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if matches!(c, ' ' | '\n' | '\t' | '\r') {
            if !out.ends_with(' ') {
                out.push(' ');
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// One tag or text per line; insignificant white space, attribute order, and the spelling of
/// character references do not matter.
pub fn canon(evs: &[Ev]) -> String {
    let mut out = String::new();
    let mut pre = false;
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Open(n, a) => {
                pre |= n == "pre";
                out += &format!("<{n}");
                for (k, v) in a {
                    out += &format!(" {k}={v:?}");
                }
                out += ">\n";
            }
            Ev::Close(n) => {
                pre &= n != "pre";
                out += &format!("</{n}>\n");
            }
            Ev::Text(s) => {
                let s = decode_entities(s);
                let (prev, next) = (i.checked_sub(1).and_then(|j| evs.get(j)), evs.get(i + 1));
                if pre {
                    let mut x = s.as_str();
                    if matches!(prev, Some(Ev::Open(n, _)) if n == "pre") {
                        x = x.strip_prefix('\n').unwrap_or(x);
                    }
                    if matches!(next, Some(Ev::Close(n)) if n == "pre") {
                        x = x.strip_suffix('\n').unwrap_or(x);
                    }
                    if !x.is_empty() {
                        out += &format!("{x:?}\n");
                    }
                    continue;
                }
                let mut x = squeeze(&s);
                if is_block(prev) {
                    x = x.trim_start_matches(' ').into();
                }
                if is_block(next) {
                    x = x.trim_end_matches(' ').into();
                }
                if !x.is_empty() {
                    out += &format!("{x:?}\n");
                }
            }
        }
    }
    out
}

/// What is inside of <body>.
pub fn body(evs: &[Ev]) -> &[Ev] {
    let s = evs.iter().position(|e| matches!(e, Ev::Open(n, _) if n == "body"));
    let e = evs.iter().rposition(|e| matches!(e, Ev::Close(n) if n == "body"));
    match (s, e) {
        (Some(s), Some(e)) if s < e => &evs[s + 1..e],
        _ => &[],
    }
}
