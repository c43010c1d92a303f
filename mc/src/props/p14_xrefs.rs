//! A cross reference links to what has the id, and shows its title.
use super::p08_spans::{atom, deep, one_line, span, spot, DEEP, SPOTS};
use super::*;
use crate::engine::*;
use crate::html::{self, Ev};
use crate::sut;

fn xref(id: &str, title: Option<&Inls>) -> I {
    I::Xref(id.into(), title.cloned().unwrap_or_default())
}

/// In the graph, in HTML, and each id is there once for the links to it.
fn check(cx: &mut Cx, steps: usize, doc: Vec<Blk>, ids: &[&str]) {
    let src = source(&doc);
    cx.check(steps, &src, |o| {
        o.ran();
        let a = sut::parse(&src)?;
        let got = crate::canon::doc(&sut::json(&a));
        o.saw(&got);
        same("the tree differs", &canon_all(&doc), &got)?;
        o.ran();
        same("the html differs", &sut::html_want(&html_all(&doc)), &sut::html_body(&a)?)?;
        let evs = html::read(&sut::html(&a)?)?;
        for id in ids {
            let n = evs
                .iter()
                .filter(|e| matches!(e, Ev::Open(_, at) if at.iter().any(|(k, v)| k == "id" && crate::canon::decode_entities(v) == *id)))
                .count();
            if n != 1 {
                return Err(format!("{n} elements with the id {id}"));
            }
        }
        Ok(())
    });
}

/// Where the thing referred to is
const PLACES: usize = CONTAINERS + 5;
fn place(p: usize, b: Blk, w: &mut Words) -> Vec<Blk> {
    let item = |p: Inls, attached: Vec<Blk>| Item { principal: p, attached, nested: vec![] };
    match p.checked_sub(CONTAINERS) {
        None => vec![container(p, vec![b])],
        Some(0) => vec![b],
        Some(1) => vec![B::Sec(1, w.w(), vec![b]).into()],
        Some(2) => vec![B::Sec(1, w.w(), vec![B::Sec(2, w.w(), vec![b]).into()]).into()],
        Some(3) => vec![B::List("*".into(), vec![item(w.w(), vec![]), item(w.w(), vec![b])]).into()],
        _ => vec![B::DList(vec![DItem { term: w.w(), principal: Some(w.w()), attached: vec![b], nested: vec![] }]).into()],
    }
}

pub fn run(cx: &mut Cx) {
    cx.space("what is referred to, and from where");
    for k in 0..KINDS {
        for p in 0..PLACES {
            for s in 0..SPOTS {
                for bits in 0..4 {
                    let (titled, before) = (bits & 1 == 1, bits & 2 == 2);
                    // comments and breaks have no title, passthroughs no element for the id
                    if [13, 18, 19].contains(&k) || titled && [16, 17].contains(&k) {
                        continue;
                    }
                    if p < CONTAINERS && delim_of(k) == container_delim(p) || p >= CONTAINERS + 3 && is_list(k) {
                        continue;
                    }
                    // sections ahead of the paragraph would take it in
                    if s == 8 && !before && (p == CONTAINERS + 1 || p == CONTAINERS + 2) || s == 8 && before {
                        continue;
                    }
                    if before && (1..=3).contains(&s) && is_list(k) || !before && s == 9 && is_list(k) {
                        continue;
                    }
                    if !cx.mine() {
                        continue;
                    }
                    let mut w = Words::default();
                    let mut b = kind(k, &mut w);
                    b.id = Some("the-id".into());
                    let title = if s % 2 == 0 { w.w() } else { [w.w(), t(" "), vec![span(1, false, w.w())]].concat() };
                    if titled {
                        b.title = Some(title.clone());
                    }
                    let x = xref("the-id", titled.then_some(&title));
                    let i = [w.w(), t(" "), vec![x], t(" "), w.w()].concat();
                    let mut there = place(p, b, &mut w);
                    let here = spot(s, i, &mut w);
                    let in_section = p == CONTAINERS + 1 || p == CONTAINERS + 2;
                    let doc = if before {
                        [here, there].concat()
                    } else if in_section {
                        fn last(v: &mut Vec<Blk>) -> &mut Vec<Blk> {
                            if matches!(v.last(), Some(Blk { b: B::Sec(..), .. })) {
                                let Some(Blk { b: B::Sec(_, _, u), .. }) = v.last_mut() else { unreachable!() };
                                return last(u);
                            }
                            v
                        }
                        last(&mut there).push(para("between"));
                        last(&mut there).extend(here);
                        there
                    } else {
                        [there, vec![para("between")], here].concat()
                    };
                    let ids: &[&str] = if [16, 17].contains(&k) { &[] } else { &["the-id"] };
                    check(cx, 2, doc, ids);
                }
            }
        }
    }
    cx.space("from further down");
    for k in 0..KINDS {
        for s in 0..DEEP {
            for bits in 0..4 {
                let (titled, before) = (bits & 1 == 1, bits & 2 == 2);
                if [13, 18, 19].contains(&k) || titled && [16, 17].contains(&k) || before && (s < 6 || [15, 18, 19, 20, 26].contains(&s) || s >= 30 && s != 36) && is_list(k) {
                    continue;
                }
                if cx.mine() {
                    let mut w = Words::default();
                    let mut b = kind(k, &mut w);
                    b.id = Some("the-id".into());
                    b.title = titled.then(|| w.w());
                    let x = xref("the-id", b.title.as_ref());
                    let here = deep(s, [w.w(), t(" "), vec![x], t(" "), w.w()].concat(), &mut w);
                    // what comes after the last section is in it
                    let doc = match before {
                        true => super::p08_spans::after(here, vec![b]),
                        false => [vec![b, para("between")], here].concat(),
                    };
                    check(cx, 2, doc, if [16, 17].contains(&k) { &[] } else { &["the-id"] });
                }
            }
        }
    }
    cx.space("to further down");
    for p in 0..DEEP {
        for s in 0..DEEP {
            if cx.mine() {
                let mut w = Words::default();
                let i = [w.w(), t(" "), vec![xref("x", None), I::T(" ".into()), xref("y", None)], t(" "), w.w()].concat();
                let mut there = deep(p, w.w(), &mut w);
                // the first paragraph in there, or whatever it is all in
                there[0].id = Some("x".into());
                let title = match &there[0].b {
                    B::Sec(_, t, _) => t.clone(),
                    _ if there[0].title.is_some() => there[0].title.clone().unwrap_or_default(),
                    _ => {
                        there[0].title = Some(w.w());
                        there[0].title.clone().unwrap_or_default()
                    }
                };
                let mut inner = None;
                fn first(v: &mut [Blk], inner: &mut Option<Inls>, w: &mut Words) {
                    for b in v {
                        match &mut b.b {
                            B::Para(_) if inner.is_none() && b.title.is_none() => {
                                b.id = Some("y".into());
                                b.title = Some(w.w());
                                *inner = b.title.clone();
                            }
                            B::Sec(_, _, v) | B::Parent(_, v) | B::AdmonBlock(_, v) => first(v, inner, w),
                            B::List(_, items) => {
                                for it in items {
                                    first(&mut it.attached, inner, w);
                                    first(&mut it.nested, inner, w);
                                }
                            }
                            B::DList(items) => {
                                for it in items {
                                    first(&mut it.attached, inner, w);
                                    first(&mut it.nested, inner, w);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                first(&mut there, &mut inner, &mut w);
                let mut doc = super::p08_spans::after(there, vec![para("between")]);
                let mut here = deep(s, i, &mut w);
                for b in &mut here {
                    b.each_inls(&mut |i| {
                        for x in i {
                            if let I::Xref(id, t) = x {
                                *t = if id == "x" { title.clone() } else { inner.clone().unwrap_or_default() };
                            }
                        }
                    });
                }
                // a section is not in a section of its own level
                doc = if matches!(here[0].b, B::Sec(..)) { [doc, here].concat() } else { super::p08_spans::after(doc, here) };
                check(cx, 4, doc, if inner.is_some() { &["x", "y"] } else { &["x"] });
            }
        }
    }
    cx.space("sections");
    seqs(4, 1..=cx.tier.pick(3, 4), |v| {
        // each section refers to each of them
        if (1..v.len()).any(|i| v[i] > v[i - 1] + 1) || v[0] > 0 {
            return;
        }
        for marked in 0..1 << v.len() {
            if cx.mine() {
                let mut w = Words::default();
                let titles: Vec<Inls> = v.iter().map(|_| [w.w(), t(" "), atom(1, &mut w)].concat()).collect();
                let mut flat = vec![];
                let names: Vec<String> = (0..v.len()).map(|i| format!("s{i}")).collect();
                let ids: Vec<&str> = (0..v.len()).filter(|i| marked >> i & 1 == 1).map(|i| names[i].as_str()).collect();
                for (i, &l) in v.iter().enumerate() {
                    let mut line: Inls = vec![];
                    for j in 0..v.len() {
                        line.push(xref(&names[j], (marked >> j & 1 == 1).then_some(&titles[j])));
                        line.extend(t(", "));
                    }
                    line.extend(w.w());
                    flat.push((l + 1, titles[i].clone(), vec![B::Para(line).into()]));
                }
                let mut doc = super::p04_sections::nest(&flat);
                fn mark(v: &mut [Blk], n: &mut usize, names: &[String], marked: usize) {
                    for b in v {
                        if let B::Sec(_, _, kids) = &mut b.b {
                            if marked >> *n & 1 == 1 {
                                b.id = Some(names[*n].clone());
                            }
                            *n += 1;
                            mark(kids, n, names, marked);
                        }
                    }
                }
                mark(&mut doc, &mut 0, &names, marked);
                check(cx, v.len() * v.len(), doc, &ids);
            }
        }
    });
    cx.space("several references to several ids");
    seqs(4, 1..=cx.tier.pick(4, 5), |v| {
        for at in 0..4 {
            if cx.mine() {
                let mut w = Words::default();
                let names = ["a", "ab", "b", "none"];
                let titles = [Some(w.w()), None, Some(w.w()), None];
                let mut line = w.w();
                for &k in v {
                    line.push(I::T(" ".into()));
                    line.push(xref(names[k], titles[k].as_ref()));
                }
                let mut doc: Vec<Blk> = (0..3)
                    .map(|i| {
                        let mut b: Blk = if i == 1 { B::Leaf(Leaf::Listing, vec![w.s()]).into() } else { B::Para(w.w()).into() };
                        b.id = Some(names[i].into());
                        b.title = titles[i].clone();
                        b
                    })
                    .collect();
                doc.insert(at, B::Para(line).into());
                check(cx, v.len(), doc, &names[..3]);
            }
        }
    });
    cx.space("inside of other markup");
    for k in 0..11 {
        for s in 0..SPOTS {
            for alone in [true, false] {
                if cx.mine() {
                    let mut w = Words::default();
                    let title = w.w();
                    let x = vec![xref("id", Some(&title))];
                    let inner = if alone { x } else { [w.w(), t(" "), x, t(" "), w.w()].concat() };
                    let i = match k {
                        0..=5 => vec![span(k, false, inner)],
                        6 | 7 => vec![span(k - 6, true, inner)],
                        8 => vec![I::Fn(inner)],
                        9 => vec![I::Link("https://x.org".into(), inner)],
                        _ => vec![span(0, false, vec![span(1, false, inner)])],
                    };
                    let i = if one_line(s) { i } else { [i, t("\n"), w.w()].concat() };
                    let mut b = para(&w.s());
                    b.id = Some("id".into());
                    b.title = Some(title);
                    let doc = [vec![b], spot(s, i, &mut w)].concat();
                    check(cx, 2, doc, &["id"]);
                }
            }
        }
    }
    cx.space("names");
    const CS: [&str; 10] = ["a", "B", "1", "-", "_", ".", ":", "é", "#", "/"];
    seqs(CS.len(), 1..=cx.tier.pick(3, 4), |v| {
        if cx.mine() {
            let id: String = v.iter().map(|&c| CS[c]).collect();
            let mut w = Words::default();
            let mut b = para(&w.s());
            b.title = Some(w.w());
            b.id = Some(id.clone());
            let x = xref(&id, b.title.as_ref());
            check(cx, v.len(), vec![b, B::Para(vec![x]).into()], &[&id]);
        }
    });
    cx.space("an id as an attribute");
    for (src, id) in [
        ("[id=x]\n", "x"),
        ("[id=\"x\"]\n", "x"),
        ("[role=\"r\"]\n[[x]]\n", "x"),
        ("[[x]]\n[role=\"r\"]\n", "x"),
        ("[id=\"x\",role=\"r\"]\n", "x"),
        ("[role=\"r\",id=\"x\"]\n", "x"),
        ("[id=x,role=r]\n", "x"),
    ] {
        for titled in [0, 1, 2] {
            if cx.mine() {
                let s = match titled {
                    0 => format!("see <<{id}>> now\n\n{src}text\n"),
                    1 => format!("see <<{id}>> now\n\n{src}.Title\ntext\n"),
                    _ => format!("see <<{id}>> now\n\n.Title\n{src}text\n"),
                };
                cx.check(2, &s, |o| {
                    o.ran();
                    let a = sut::parse(&s)?;
                    let tree = crate::canon::doc(&sut::json(&a));
                    o.saw(&tree);
                    let text = if titled > 0 { "Title" } else { "" };
                    let want = format!("para \"see ⟨xref {id}|{text}⟩ now\"");
                    if tree.lines().next() != Some(&want) {
                        return Err(format!("expected {want}:\n{tree}"));
                    }
                    let html = sut::html(&a)?;
                    if html.matches(&format!(" id=\"{id}\"")).count() != 1 {
                        return Err(format!("expected the id once:\n{html}"));
                    }
                    Ok(())
                });
            }
        }
    }
    cx.space("what only looks like a reference");
    for s in ["<a>>", "<<a>", "<< a>>", "<<a b>>", "<<a >>", "<a>", "<<a", "a>>", "<<a\nb>>", ">>a<<", "< <a>>", "<<a> >"] {
        for p in 0..SPOTS {
            if !(one_line(p) && s.contains('\n')) && cx.mine() {
                let mut w = Words::default();
                let i = [w.w(), t(" "), t(s), t(" "), w.w()].concat();
                let mut b = para(&w.s());
                b.id = Some("a".into());
                b.title = Some(w.w());
                check(cx, 1, [vec![b], spot(p, i, &mut w)].concat(), &["a"]);
            }
        }
    }
}
