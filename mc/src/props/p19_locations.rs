//! Every location is where in the source the thing is.
use super::p05_lists::{line, lists, MARKERS};
use super::p08_spans::{atom, one_line, spot, ATOMS, SEPS, SPOTS};
use super::p09_text::BETWEEN;
use super::*;
use crate::engine::*;
use crate::sut;
use serde_json::Value;

type Pos = (usize, usize);

fn range(v: &Value) -> Result<Option<(Pos, Pos)>, String> {
    let Some(l) = v.get("location").and_then(|l| l.as_array()) else { return Ok(None) };
    let pos = |p: &Value| Some((p["line"].as_u64()? as usize, p["col"].as_u64()? as usize));
    match l.as_slice() {
        [] => Ok(None),
        // a document with nothing in it
        [_] if v["name"] == "document" && v["blocks"].as_array().is_some_and(|b| b.is_empty()) => Ok(None),
        [a, b] => match (pos(a), pos(b)) {
            (Some(a), Some(b)) => Ok(Some((a, b))),
            _ => Err(format!("not a location: {v}")),
        },
        _ => Err(format!("not a location: {v}")),
    }
}

/// What is at that location, which is in lines and bytes, and includes its end.
fn slice<'a>(src: &'a str, starts: &[usize], (a, b): (Pos, Pos)) -> Option<&'a str> {
    let at = |p: Pos| Some(starts.get(p.0.checked_sub(1)?)? + p.1.checked_sub(1)?);
    src.get(at(a)?..at(b)? + 1)
}

fn starts(src: &str) -> Vec<usize> {
    [0].into_iter().chain(src.match_indices('\n').map(|(i, _)| i + 1)).collect()
}

/// Children are inside of their parents, one after the other; text is where it says it is.
fn nests(v: &Value, outer: (Pos, Pos), src: &str, starts: &[usize], texts: bool) -> Result<(), String> {
    let here = range(v)?;
    let name = v["name"].as_str().unwrap_or("?");
    if let Some((a, b)) = here {
        if a > b || a < outer.0 || b > outer.1 {
            return Err(format!("{name} is at {a:?} to {b:?}, but in something at {outer:?}"));
        }
        if slice(src, starts, (a, a)).is_none() && !src.is_empty() && src.is_ascii() {
            return Err(format!("{name} is at {a:?} to {b:?}, which isn't there"));
        }
        if texts && name == "text" {
            let value = v["value"].as_str().unwrap_or("");
            let got = slice(src, starts, (a, b));
            if got != Some(value) {
                return Err(format!("{value:?} is said to be at {a:?} to {b:?}, where there is {got:?}"));
            }
        }
    }
    let inner = here.unwrap_or(outer);
    for k in ["terms", "principal", "inlines", "items", "blocks"] {
        let mut last = (0, 0);
        for c in v.get(k).and_then(|c| c.as_array()).into_iter().flatten() {
            nests(c, inner, src, starts, texts)?;
            if let Some((a, b)) = range(c)? {
                if a <= last {
                    return Err(format!("{} at {a:?} to {b:?} follows something that ends at {last:?}", c["name"]));
                }
                last = b;
            }
        }
    }
    Ok(())
}

/// The blocks, in the order of the source, without those that are only there to hold text.
fn spans(v: &Value, out: &mut Vec<(String, Pos, Pos)>) -> Result<(), String> {
    for k in ["items", "blocks"] {
        for c in v.get(k).and_then(|c| c.as_array()).into_iter().flatten() {
            let name = c["name"].as_str().unwrap_or("?");
            let plain = c.get("metadata").is_none() && c.get("title").is_none();
            let text_of = |outer: &str, inner: &str| v["name"] == outer && name == inner && plain;
            let part = matches!(name, "listItem" | "dlistItem" | "tableCell")
                || text_of("admonition", "example")
                || text_of("admonition", "paragraph") && v["delimiter"].as_str().is_some_and(|d| d.ends_with(": "))
                || text_of("quote", "paragraph") && v.get("delimiter").is_none();
            if !part {
                let Some((a, b)) = range(c)? else { return Err(format!("no location: {c}")) };
                out.push((name.to_string(), a, b));
            }
            spans(c, out)?;
        }
    }
    Ok(())
}

fn holds(w: &Writer, src: &str, texts: bool, o: &mut Obs) -> Result<(), String> {
    let last = src.lines().count();
    let width = |l: usize| src.lines().nth(l - 1).map_or(0, |l| l.len());
    let want: Vec<String> =
        w.spans.iter().filter(|s| s.0 != "comment").map(|(k, a, b)| format!("{k} {a}:1 {b}:{}", width(*b))).collect();
    o.ran();
    let v = sut::json(&sut::parse(src)?);
    let mut got = vec![];
    spans(&v, &mut got)?;
    let got: Vec<String> = got
        .iter()
        .map(|(k, a, b)| {
            let mut a = *a;
            // either the line that names an admonition or the one that delimits it
            let line = |l: usize| src.lines().nth(l - 1).unwrap_or("");
            while k == "admonition" && line(a.0).starts_with(['[', '.']) {
                a.0 += 1;
            }
            format!("{k} {}:{} {}:{}", a.0, a.1, b.0, b.1)
        })
        .collect();
    o.saw(&got);
    same("the locations of blocks differ", &want.join("\n"), &got.join("\n"))?;
    if got.is_empty() {
        return Ok(());
    }
    nests(&v, ((1, 1), (last, width(last))), src, &starts(src), texts)
}

/// What the locations of spans, links and the like say they are, in order
fn elements(v: &Value, src: &str, starts: &[usize], out: &mut Vec<String>) -> Result<(), String> {
    for k in ["title", "caption", "terms", "principal", "inlines", "items", "blocks"] {
        for c in v.get(k).and_then(|c| c.as_array()).into_iter().flatten() {
            if c["name"] == "span" || c["name"] == "ref" {
                let Some(at) = range(c)? else { return Err(format!("no location: {c}")) };
                out.push(slice(src, starts, at).unwrap_or("nothing").to_string());
            }
            elements(c, src, starts, out)?;
        }
    }
    Ok(())
}

/// Those as they were written
fn written(v: &[I], out: &mut Vec<String>) {
    for i in v {
        if let I::S(_, _, _, c) | I::Link(_, c) | I::Fn(c) = i {
            // as with blocks, what is ahead of a span is not in its location
            let mut i = i.clone();
            if let I::S(_, _, roles, _) = &mut i {
                roles.clear();
            }
            out.push(inl_src(&[i]));
            written(c, out);
        }
    }
}

fn check(cx: &mut Cx, steps: usize, doc: &[Blk], texts: bool) {
    let mut want = vec![];
    for b in doc.to_vec().iter_mut() {
        b.each_inls(&mut |i| written(i, &mut want));
    }
    let mut w = Writer::default();
    w.blocks(doc, "\n\n");
    let src = format!("{}\n", w.out);
    cx.check(steps, &src, |o| {
        holds(&w, &src, texts, o)?;
        holds(&w, &w.out, texts, o)?;
        let mut got = vec![];
        elements(&sut::json(&sut::parse(&src)?), &src, &starts(&src), &mut got)?;
        same("the locations of inline elements differ", &want.join("\n"), &got.join("\n"))
    });
}

fn shift(v: &mut Value, n: u64) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| shift(x, n)),
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                match x.as_u64() {
                    Some(l) if k == "line" => *x = (l + n).into(),
                    _ => shift(x, n),
                }
            }
        }
        _ => {}
    }
}

fn go(cx: &mut Cx, steps: usize, make: impl FnOnce(&mut Words) -> Vec<Blk>) {
    if cx.mine() {
        let doc = make(&mut Words::default());
        check(cx, steps, &doc, true);
    }
}

pub fn run(cx: &mut Cx) {
    cx.space("sequences of blocks");
    let ok_seq = |v: &[usize]| v.windows(2).all(|p| !(is_list(p[0]) && is_list(p[1])));
    seqs(KINDS, 1..=cx.tier.pick(3, 4), |v| {
        if ok_seq(v) {
            go(cx, v.len(), |w| v.iter().map(|&k| kind(k, w)).collect());
        }
    });
    cx.space("with lines ahead of them");
    for k in 0..KINDS {
        for j in 0..KINDS {
            if ok_seq(&[k, j]) {
                for m in 0..8 {
                    go(cx, 2, |w| {
                        let one = |k: usize, n: &str, w: &mut Words| match k {
                            18 | 19 => kind(k, w),
                            _ => {
                                let title = (m & 4 > 0 && k != 16 && k != 17).then(|| w.s());
                                kind(k, w).with((m & 1 > 0).then_some(n), (m & 2 > 0).then_some("r"), title.as_deref())
                            }
                        };
                        vec![one(k, "i", w), one(j, "é", w)]
                    });
                }
            }
        }
    }
    cx.space("blocks inside of blocks");
    for c in 0..CONTAINERS {
        seqs(KINDS, 0..=2, |v| {
            if ok_seq(v) && v.iter().all(|&k| delim_of(k) != container_delim(c)) {
                go(cx, v.len() + 2, |w| {
                    let inner = v.iter().map(|&k| kind(k, w)).collect();
                    vec![para(&w.s()), container(c, inner), para(&w.s())]
                });
            }
        });
        for d in (0..CONTAINERS).filter(|&d| container_delim(d) != container_delim(c)) {
            for k in (0..KINDS).filter(|&k| delim_of(k) != container_delim(c) && delim_of(k) != container_delim(d)) {
                go(cx, 4, |w| {
                    let inner = container(d, vec![kind(k, w), para(&w.s())]);
                    vec![container(c, vec![inner, kind(1, w)]), para(&w.s())]
                });
            }
        }
    }
    cx.space("blocks attached to list items");
    for list in 0..3 {
        seqs(KINDS + CONTAINERS, 1..=2, |v| {
            if v.iter().any(|&k| is_list(k) || k == 18 || k == 19) {
                return;
            }
            for more in [false, true] {
                go(cx, v.len() + 2, |w| {
                    let attached: Vec<Blk> =
                        v.iter().map(|&k| if k < KINDS { kind(k, w) } else { container(k - KINDS, vec![para(&w.s()), kind(2, w)]) }).collect();
                    let b = match list {
                        2 => {
                            let mut items = vec![DItem { term: w.w(), principal: Some(w.w()), attached, nested: vec![] }];
                            if more {
                                items.push(DItem { term: w.w(), principal: Some(w.w()), attached: vec![], nested: vec![] });
                            }
                            B::DList(items)
                        }
                        l => {
                            let mut items = vec![Item { principal: w.w(), attached, nested: vec![] }];
                            if more {
                                items.push(Item { principal: w.w(), ..Item::default() });
                            }
                            B::List(["*", "."][l].into(), items)
                        }
                    };
                    vec![b.into(), para(&w.s())]
                });
            }
        });
    }
    cx.space("lists in lists");
    seqs(MARKERS.len(), 1..=cx.tier.pick(5, 7), |v| {
        for two in [false, true] {
            go(cx, v.len(), |w| {
                let lines: Vec<_> = v.iter().map(|&m| line(MARKERS[m], w, two)).collect();
                vec![lists(&lines), para(&w.s())]
            });
        }
    });
    cx.space("sections");
    seqs(4, 1..=cx.tier.pick(5, 7), |v| {
        if v[0] != 0 || v.windows(2).any(|p| p[1] > p[0] + 1) {
            return;
        }
        for filled in 0..3 {
            go(cx, v.len(), |w| {
                fn build(v: &[usize], i: &mut usize, l: usize, filled: usize, w: &mut Words) -> Vec<Blk> {
                    let mut out = vec![];
                    while *i < v.len() && v[*i] == l {
                        let n = *i;
                        *i += 1;
                        let title = w.w();
                        let mut inner = match filled {
                            0 => vec![],
                            1 => vec![kind(n, w)],
                            _ => vec![para(&w.s()), kind(n + 7, w)],
                        };
                        inner.extend(build(v, i, l + 1, filled, w));
                        out.push(B::Sec(l + 1, title, inner).into());
                    }
                    out
                }
                build(v, &mut 0, 0, filled, w)
            });
        }
    });
    cx.space("inline elements");
    for p in 0..SPOTS {
        seqs(ATOMS, 1..=cx.tier.pick(2, 3), |v| {
            if one_line(p) && v.contains(&18) {
                return;
            }
            for sep in 0..SEPS.len() {
                if one_line(p) && sep == 1 {
                    continue;
                }
                go(cx, v.len(), |w| {
                    let mut i = if sep == 2 { t("é😀") } else { w.w() };
                    for &a in v {
                        i.extend(t(SEPS[sep]));
                        i.extend(atom(a, w));
                    }
                    spot(p, i, w)
                });
            }
        });
    }
    cx.space("the same blocks further down");
    for pre in ["= Title\n\n", "= Title\n:a: é\n:b:\n\n", "// comment\n\n", "\n\n\n", ":x: y\n\n", "////\na\n\nb\n////\n\n", "= Title *é*\n\n\n// c\n\n"] {
        seqs(KINDS, 1..=2, |v| {
            if !ok_seq(v) || !cx.mine() {
                return;
            }
            let w = &mut Words::default();
            let doc: Vec<Blk> = v.iter().map(|&k| kind(k, w)).collect();
            let alone = source(&doc);
            let src = format!("{pre}{alone}");
            let n = pre.matches('\n').count();
            cx.check(v.len() + 1, &src, |o| {
                o.ran();
                let blocks = |s: &str| Ok::<_, String>(sut::json(&sut::parse(s)?)["blocks"].clone());
                let mut want = blocks(&alone)?;
                shift(&mut want, n as u64);
                same("the locations differ", &format!("{want:#}"), &format!("{:#}", blocks(&src)?))
            });
        });
    }
    cx.space("titles of documents");
    seqs(ATOMS, 0..=2, |v| {
        for (tail, last) in [("", None), ("\n", None), ("\n:x: y\n", None), ("\n\nab\n", Some(3)), ("\n:x: y\n\n\nab", Some(5))] {
            if v.contains(&18) || !cx.mine() {
                continue;
            }
            let w = &mut Words::default();
            let mut i = w.w();
            for &a in v {
                i.extend(t(" "));
                i.extend(atom(a, w));
            }
            let head = format!("= {}", inl_src(&i));
            let src = format!("{head}{tail}");
            let mut want = vec![];
            written(&i, &mut want);
            cx.check(v.len() + 1, &src, |o| {
                o.ran();
                let j = sut::json(&sut::parse(&src)?);
                let all = ((1, 1), (1, head.len()));
                same("the header", &format!("{:?}", Some(all)), &format!("{:?}", range(&j["header"])?))?;
                let end = last.map_or(all.1, |l| (l, 2));
                same("the document", &format!("{:?}", Some(((1, 1), end))), &format!("{:?}", range(&j)?))?;
                let title = serde_json::json!({ "name": "title", "inlines": j["header"]["title"] });
                nests(&title, all, &src, &starts(&src), true)?;
                let mut got = vec![];
                elements(&title, &src, &starts(&src), &mut got)?;
                o.saw(&got);
                same("the locations of inline elements differ", &want.join("\n"), &got.join("\n"))
            });
        }
    });
    cx.space("lines ahead of a term");
    let ahead = ["a", "bb", "*c* d", "_ee_", "é fff", "g *h*", "http://x.y[z]"];
    seqs(ahead.len(), 1..=cx.tier.pick(5, 6), |v| {
        for term in ["t:: d", "*tt*:: d", "t *u*:: d\ne", "uu v:: d\nt:: e"] {
            if !cx.mine() {
                continue;
            }
            let lines: Vec<&str> = v.iter().map(|&k| ahead[k]).collect();
            let s = format!("{}\n{term}\n", lines.join("\n"));
            cx.check(v.len() + 1, &s, |o| {
                o.ran();
                let last = s.lines().count();
                nests(&sut::json(&sut::parse(&s)?), ((1, 1), (last, s.lines().last().unwrap_or("").len())), &s, &starts(&s), true)
            });
        }
    });
    cx.space("any markup");
    seqs(BETWEEN.len(), 1..=cx.tier.pick(3, 4), |v| {
        for lead in [true, false] {
            let mut s = if lead { "w0".to_string() } else { String::new() };
            for (i, &k) in v.iter().enumerate() {
                s += BETWEEN[k];
                s += &format!("w{}", i + 1);
            }
            // not replaced with anything else
            let plain = !super::p09_text::hides(&s) && !["'", "`", "--", "...", "->", "[.", "(C)", "pass:"].iter().any(|x| s.contains(x));
            // see the known finding of P02
            if s.contains("::\n") || !cx.mine() {
                continue;
            }
            cx.check(v.len(), &s, |o| {
                o.ran();
                match sut::parse(&s) {
                    Ok(a) => {
                        o.hit("accepted");
                        let last = s.lines().count();
                        nests(&sut::json(&a), ((1, 1), (last, s.lines().last().unwrap_or("").len())), &s, &starts(&s), plain)
                    }
                    Err(_) => {
                        o.hit("rejected");
                        Ok(())
                    }
                }
            });
        }
    });
}
