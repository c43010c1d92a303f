//! Ids, roles, titles and other attributes end up on the block that follows them, and only there.
use super::*;
use crate::engine::*;
use crate::sut;

/// Kinds that can be given attributes; comments are not there to have any.
fn takes(k: usize) -> bool {
    k != 18 && k != 19
}
fn takes_title(k: usize) -> bool {
    takes(k) && k != 16 && k != 17
}

/// What may be ahead of a block: its style, an id, two lists of roles, a title and an attribute.
const PARTS: usize = 6;
/// What may be between those
const NOISE: [&str; 4] = ["", "\n", "// comment\n", ":some: thing\n"];

/// Writes these parts, in this order, ahead of the block. A style that isn't one of them is last.
fn dress(mut b: Blk, n: usize, parts: &[usize], noise: &str) -> Blk {
    let style = b.style();
    let mut lines: Vec<String> = vec![];
    let mut roles: Vec<String> = vec![];
    for p in parts {
        lines.push(match p {
            0 => style.clone(),
            1 => {
                b.id = Some(format!("id{n}"));
                format!("[[id{n}]]\n")
            }
            2 => {
                roles.push(format!("ra{n} rb{n}"));
                format!("[role=\"ra{n} rb{n}\"]\n")
            }
            3 => {
                b.title = Some(t(&format!("Title {n}")));
                format!(".Title {n}\n")
            }
            4 => {
                b.attrs.push((format!("key{n}"), format!("value {n}, yes")));
                format!("[key{n}=\"value {n}, yes\"]\n")
            }
            _ => {
                roles.push(format!("rc{n}"));
                format!("[role=rc{n}]\n")
            }
        });
    }
    if !parts.contains(&0) && !style.is_empty() {
        lines.push(style);
    }
    if !roles.is_empty() {
        b.role = Some(roles.join(" "));
    }
    b.pre = Some(lines.iter().map(|l| format!("{l}{noise}")).collect());
    b
}

fn holds(doc: &[Blk], src: &str, o: &mut Obs, html: bool) -> Result<(), String> {
    o.ran();
    let a = sut::parse(src)?;
    let got = crate::canon::doc(&strip(sut::json(&a)));
    o.saw(&got);
    same("the tree differs", &canon_all(doc), &got)?;
    if html {
        o.ran();
        same("the html differs", &sut::html_want(&html_all(doc)), &sut::html_body(&a)?)?;
    }
    Ok(())
}

/// The document's own attributes are not of interest
fn strip(mut v: serde_json::Value) -> serde_json::Value {
    v.as_object_mut().unwrap().remove("attributes");
    v
}

fn go(cx: &mut Cx, steps: usize, html: bool, make: impl FnOnce(&mut Words) -> Vec<Blk>) {
    if cx.mine() {
        let doc = make(&mut Words::default());
        let src = source(&doc);
        cx.check(steps, &src, |o| holds(&doc, &src, o, html));
    }
}

/// All orders of the things in `v`
fn perms(v: &[usize], f: &mut impl FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, i: usize, f: &mut impl FnMut(&[usize])) {
        if i >= v.len() {
            return f(v);
        }
        for j in i..v.len() {
            v.swap(i, j);
            go(v, i + 1, f);
            v.swap(i, j);
        }
    }
    go(&mut v.to_vec(), 0, f)
}

fn parts_of(set: usize) -> Vec<usize> {
    (0..PARTS).filter(|i| set >> i & 1 == 1).collect()
}

/// Whether this set of parts can be ahead of that kind of block
fn fits(k: usize, set: usize) -> bool {
    let styled = !kind(k, &mut Words::default()).style().is_empty();
    (set & 1 == 1) == styled && (set & 8 == 0 || takes_title(k)) && takes(k)
}

pub fn run(cx: &mut Cx) {
    cx.space("orders of what is ahead of a block");
    for k in 0..KINDS {
        for set in 0..1 << PARTS {
            if !fits(k, set) {
                continue;
            }
            let parts = parts_of(set);
            perms(&parts, &mut |v| {
                for (n, noise) in NOISE.iter().enumerate() {
                    // an empty line ends an admonition, even if there is nothing in it yet
                    if k == 8 && n == 1 {
                        continue;
                    }
                    for before in 0..2 {
                        let html = n == 0 && before == 1 && v.len() < 4;
                        go(cx, v.len() + 1, html, |w| {
                            let mut doc = vec![];
                            if before == 1 {
                                doc.push(para(&w.s()));
                            }
                            doc.push(dress(kind(k, w), 1, v, noise));
                            doc.push(para(&w.s()));
                            doc
                        });
                    }
                }
            });
        }
    }

    cx.space("pairs of blocks");
    for k in 0..KINDS {
        for j in 0..KINDS {
            for a in [0, 2, 4, 8, 14, 30] {
                for b in [0, 2, 4, 8, 14, 30] {
                    // a style is part of the block here
                    let ok = |k: usize, s: usize| takes(k) && (s & 8 == 0 || takes_title(k));
                    if !ok(k, a) || !ok(j, b) || (is_list(k) && is_list(j) && b == 0) {
                        continue;
                    }
                    go(cx, 2, a == 14 && b == 14, |w| {
                        vec![dress(kind(k, w), 1, &parts_of(a), ""), dress(kind(j, w), 2, &parts_of(b), ""), para(&w.s())]
                    });
                }
            }
        }
    }

    cx.space("right after another block");
    for k in (0..KINDS).filter(|&k| takes(k) && !is_list(k)) {
        for j in 0..KINDS {
            for set in 1..1 << PARTS {
                if !fits(j, set) {
                    continue;
                }
                perms(&parts_of(set), &mut |v| {
                    // a title doesn't end a text; and beyond three it is the order that counts
                    if v[0] == 3 || (v.len() > 3 && v[1..].windows(2).any(|p| p[0] > p[1])) {
                        return;
                    }
                    for place in 0..2 {
                        if place == 1 && (delim_of(k) == container_delim(0) || delim_of(j) == container_delim(0)) || !cx.mine() {
                            continue;
                        }
                        let mut w = Words::default();
                        let (a, b) = (kind(k, &mut w), dress(kind(j, &mut w), 1, v, ""));
                        let src = format!("{}{}\n{}", source(&[a.clone()]), source(&[b.clone()]), source(&[para("end")]));
                        let (doc, src) = match place {
                            0 => (vec![a, b, para("end")], src),
                            _ => {
                                let d = container_delim(0);
                                (vec![container(0, vec![a, b, para("end")])], format!("{d}\n{src}{d}\n"))
                            }
                        };
                        cx.check(v.len() + 1, &src, |o| holds(&doc, &src, o, false));
                    }
                });
            }
        }
    }

    cx.space("inside of blocks, list items and sections");
    for place in 0..CONTAINERS + 5 {
        for k in 0..KINDS {
            for j in 0..KINDS {
                for sets in [(14, 14, 14), (14, 0, 0), (0, 14, 0), (0, 0, 14), (30, 2, 4), (2, 8, 2)] {
                    let (outer, a, b) = sets;
                    let ok = |k: usize, s: usize| takes(k) && (s & 8 == 0 || takes_title(k));
                    if !ok(k, a) || !ok(j, b) || (is_list(k) && is_list(j) && b == 0) {
                        continue;
                    }
                    if place < CONTAINERS && (delim_of(k) == container_delim(place) || delim_of(j) == container_delim(place)) {
                        continue;
                    }
                    // lists go on with what is attached after them
                    if (CONTAINERS..CONTAINERS + 3).contains(&place) && (is_list(k) || is_list(j)) {
                        continue;
                    }
                    // sections have titles of their own
                    let outer = if place >= CONTAINERS + 3 { outer & !8 } else { outer };
                    go(cx, 3, cx_html(sets), |w| {
                        let inner = vec![dress(kind(k, w), 2, &parts_of(a), ""), dress(kind(j, w), 3, &parts_of(b), "")];
                        let item = |p: Inls, attached: Vec<Blk>| Item { principal: p, attached, nested: vec![] };
                        let outer_parts = parts_of(outer);
                        match place {
                            p if p < CONTAINERS => vec![dress(container(p, inner), 1, &outer_parts, ""), para(&w.s())],
                            p if p < CONTAINERS + 2 => {
                                let m = ["*", "."][p - CONTAINERS];
                                let items = vec![item(w.w(), inner), item(w.w(), vec![])];
                                vec![dress(B::List(m.into(), items).into(), 1, &outer_parts, ""), para(&w.s())]
                            }
                            p if p < CONTAINERS + 3 => {
                                let items = vec![DItem { term: w.w(), principal: Some(w.w()), attached: inner, nested: vec![] }];
                                vec![dress(B::DList(items).into(), 1, &outer_parts, ""), para(&w.s())]
                            }
                            p => {
                                let l = if p == CONTAINERS + 3 { 1 } else { 3 };
                                let next = B::Sec(l, w.w(), vec![para(&w.s())]).into();
                                vec![dress(B::Sec(l, w.w(), inner).into(), 1, &outer_parts, ""), dress(next, 4, &parts_of(outer & 4), "")]
                            }
                        }
                    });
                }
            }
        }
    }

    cx.space("sections");
    for set in [0, 2, 4, 16, 6, 18, 20, 22, 54] {
        perms(&parts_of(set), &mut |v| {
            for noise in NOISE {
                for l in 1..=4 {
                    for m in 1..=l {
                        go(cx, v.len() + 2, noise.is_empty(), |w| {
                            let first = dress(B::Sec(l, w.w(), vec![para(&w.s())]).into(), 1, v, noise);
                            vec![first, dress(B::Sec(m, w.w(), vec![para(&w.s())]).into(), 2, v, noise), ]
                        });
                    }
                    if l < 4 {
                        go(cx, v.len() + 2, noise.is_empty(), |w| {
                            let inner = dress(B::Sec(l + 1, w.w(), vec![para(&w.s())]).into(), 2, v, noise);
                            vec![dress(B::Sec(l, w.w(), vec![para(&w.s()), inner]).into(), 1, v, noise)]
                        });
                    }
                }
            }
        });
    }

    cx.space("what is left over");
    for place in 0..CONTAINERS + 1 {
        for set in 1..1 << PARTS {
            if set & 1 == 1 {
                continue;
            }
            perms(&parts_of(set), &mut |v| {
                for k in (0..KINDS).filter(|&k| takes(k)) {
                    if k > 0 && v.windows(2).any(|p| p[0] > p[1]) || (place < CONTAINERS && delim_of(k) == container_delim(place)) {
                        continue;
                    }
                    go(cx, v.len() + 2, false, |w| {
                        // the leftovers are written as if they were ahead of a comment
                        let left = dress(B::CommentLine(w.s()).into(), 1, v, "");
                        match place {
                            p if p < CONTAINERS => {
                                vec![container(p, vec![para(&w.s()), left.clone()]), kind(k, w), container(p, vec![left]), para(&w.s())]
                            }
                            _ => vec![kind(k, w), left],
                        }
                    });
                }
            });
        }
    }

    cx.space("titles that look like something else");
    odd(cx.tier.pick(3, 4), |s| {
        if s.starts_with('.') {
            return;
        }
        for k in [0, 1, 2, 9, 10] {
            go(cx, s.len(), false, |w| {
                let mut b = kind(k, w);
                b.title = Some(t(s));
                vec![para(&w.s()), b, para(&w.s())]
            });
        }
    });

    cx.space("attribute lists");
    lists(cx);
    cx.space("many roles, attributes and lists");
    for n in [1, 2, 9, 10, 11, 64, 100, 300] {
        for form in 0..4 {
            go(cx, n, true, |w| {
                let mut b: Blk = B::Para(w.w()).into();
                let names: Vec<String> = (0..n).map(|i| format!("r{i}")).collect();
                match form {
                    0 => b.pre = Some(format!("[role=\"{}\"]\n", names.join(" "))),
                    1 => b.pre = Some(names.iter().map(|r| format!("[role={r}]\n")).collect()),
                    2 => b.pre = Some(format!("[{}]\n", names.iter().map(|r| format!("role={r}")).collect::<Vec<_>>().join(","))),
                    _ => {
                        b.attrs = names.iter().map(|r| (r.clone(), format!("x{r}"))).collect();
                        b.pre = Some(format!("[{}]\n", names.iter().map(|r| format!("{r}=x{r}")).collect::<Vec<_>>().join(", ")));
                    }
                }
                if form < 3 {
                    b.role = Some(names.join(" "));
                }
                vec![b, para(&w.s())]
            });
        }
    }
}

fn cx_html(sets: (usize, usize, usize)) -> bool {
    sets == (14, 14, 14)
}

/// An attribute as written, and what it is: a positional value, a named one, or roles
const ATTRS: [(&str, u8, &str, &str); 25] = [
    ("a", 0, "", "a"),
    ("é b", 0, "", "é b"),
    ("\"c\"", 0, "", "c"),
    ("\"d, e\"", 0, "", "d, e"),
    ("\"f=g\"", 0, "", "f=g"),
    ("", 0, "", ""),
    ("k=v", 1, "k", "v"),
    ("l=\"v w\"", 1, "l", "v w"),
    ("m=\"v, w=x\"", 1, "m", "v, w=x"),
    ("n-o=\"\"", 1, "n-o", ""),
    ("p=é", 1, "p", "é"),
    ("q = 1", 1, "q", "1"),
    ("id=i", 1, "id", "i"),
    ("role=r", 2, "", "r"),
    ("role=\"s t\"", 2, "", "s t"),
    ("role=\"\"", 2, "", ""),
    ("sofa", 0, "", "sofa"),
    ("k2=source", 1, "k2", "source"),
    ("\"http://x.y?z=1&w\"", 0, "", "http://x.y?z=1&w"),
    ("k3=a|b", 1, "k3", "a|b"),
    ("Ab C++", 0, "", "Ab C++"),
    ("Kk=Ab", 1, "Kk", "Ab"),
    ("l2=\"v  w \"", 1, "l2", "v  w "),
    ("k=u", 1, "k", "u"),
    ("role=R", 2, "", "R"),
];

fn lists(cx: &mut Cx) {
    let n = cx.tier.pick(3, 4);
    seqs(ATTRS.len(), 1..=n, |v| {
        for sep in [",", ", ", " ,", " , "] {
            // an empty list is none
            let list = v.iter().map(|&i| ATTRS[i].0).collect::<Vec<_>>().join(sep);
            if list.trim().is_empty() || list.starts_with([' ', '[']) {
                continue;
            }
            for style in ["", "source", "quote", "verse"] {
                if !style.is_empty() && v.len() == n && sep != "," {
                    continue;
                }
                if style == "source" && v.len() > 1 && v[1..].iter().any(|&i| ATTRS[i].1 == 0) {
                    // only the language has a meaning
                    continue;
                }
                go(cx, v.len(), false, |w| {
                    let mut b = match style {
                        "source" => B::Source(String::new(), vec![w.s()]),
                        "quote" => B::QuotePara(w.w(), None, None),
                        "verse" => B::Verse(vec![w.w()]),
                        _ => B::Para(w.w()),
                    }
                    .into();
                    let b: &mut Blk = &mut b;
                    b.pre = Some(match style {
                        "" => format!("[{list}]\n"),
                        s => format!("[{s}{sep}{list}]\n"),
                    });
                    let mut roles: Vec<&str> = vec![];
                    for (i, &a) in v.iter().enumerate() {
                        let (_, what, k, val) = ATTRS[a];
                        match what {
                            0 if val.is_empty() => {}
                            0 => {
                                let key = match (style, i) {
                                    ("source", 0) => "language".to_string(),
                                    ("quote" | "verse", 0) => "attribution".to_string(),
                                    ("quote" | "verse", 1) => "citation".to_string(),
                                    ("", i) => format!("positional_{}", i + 1),
                                    (_, i) => format!("positional_{}", i + 2),
                                };
                                b.attrs.push((key, val.to_string()));
                            }
                            1 if k == "id" => b.id = Some(val.into()),
                            1 => {
                                // the last value is the one that counts
                                b.attrs.retain(|(key, _)| key != k);
                                b.attrs.push((k.to_string(), val.to_string()))
                            }
                            _ => roles.extend(val.split(' ').filter(|r| !r.is_empty())),
                        }
                    }
                    if !roles.is_empty() {
                        b.role = Some(roles.join(" "));
                    }
                    vec![b.clone(), para(&w.s())]
                });
            }
        }
    });
}
