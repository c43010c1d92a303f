//! Footnotes stay where they are, or become numbered references to definitions at the end.
use super::p08_spans::{atom, deep, one_line, span, spot, ATOMS, DEEP, SPOTS};
use super::*;
use crate::engine::*;
use crate::{canon, sut};

/// Replaces each footnote with its reference; returns the definitions.
fn number(doc: &mut [Blk], id: &str) -> Vec<String> {
    fn go(v: &mut Inls, id: &str, defs: &mut Vec<String>) {
        for i in v {
            match i {
                I::Fn(c) => {
                    let n = defs.len() + 1;
                    let text = inl_canon(c);
                    defs.push(format!("para \"{}\" [id={id}_footnotedef_{n} .footnote]", canon::esc(&format!("⟨xref {id}_footnoteref_{n}|{n}⟩{text}"))));
                    *i = I::R(String::new(), format!("⟨superscript [.footnote]:⟨xref {id}_footnotedef_{n} [id={id}_footnoteref_{n}]|{n}⟩⟩"));
                }
                I::S(_, _, _, c) | I::Link(_, c) => go(c, id, defs),
                _ => {}
            }
        }
    }
    let mut defs = vec![];
    for b in doc {
        b.each_inls(&mut |i| go(i, id, &mut defs));
    }
    defs
}

fn check(cx: &mut Cx, steps: usize, doc: &[Blk], titled: bool, html: bool) {
    let head = if titled { "= The Title, é & *1*\n\n" } else { "" };
    let id = if titled { "the_title__é___1" } else { "" };
    let src = format!("{head}{}", source(doc));
    cx.check(steps, &src, |o| {
        o.ran();
        let mut a = sut::parse(&src)?;
        let tree = |a: &_| {
            let mut v = sut::json(a);
            v.as_object_mut().unwrap().remove("header");
            canon::doc(&v)
        };
        same("the tree differs", &canon_all(doc), &tree(&a))?;
        if html {
            o.ran();
            same("the html differs", &sut::html_want(&html_all(doc)), &sut::html_body(&a)?)?;
        }
        a.standardize_footnotes().map_err(|e| format!("standardize_footnotes: {e}"))?;
        let v = sut::json(&a);
        let mut blocks = v["blocks"].as_array().cloned().unwrap_or_default();
        let last = blocks.pop().ok_or("nothing is left")?;
        let mut rest = v.clone();
        rest["blocks"] = blocks.into();
        rest.as_object_mut().unwrap().remove("header");
        let mut numbered = doc.to_vec();
        let want = number(&mut numbered, id);
        let got = canon::doc(&rest);
        o.saw(&got);
        same("the tree with references differs", &canon_all(&numbered), &got)?;
        let mut defs = String::new();
        for d in last["blocks"].as_array().unwrap_or(&vec![]) {
            canon::block(d, 0, &mut defs);
        }
        o.saw(&defs);
        same("the definitions differ", &want.iter().map(|d| format!("{d}\n")).collect::<String>(), &defs)
    });
}

/// Adds a footnote to everything that can have one.
fn annotate(b: &mut Blk, style: usize, w: &mut Words) {
    b.each_inls(&mut |i| {
        let n = match style {
            0 => vec![I::Fn(w.w())],
            1 => vec![I::T(" ".into()), span(0, false, [w.w(), vec![I::Fn(w.w())]].concat())],
            _ => vec![I::Fn(w.w()), I::T(", ".into()), span(1, true, w.w()), I::Fn(w.w())],
        };
        i.extend(n);
    });
}

pub fn run(cx: &mut Cx) {
    cx.space("everything that can have one has one");
    for n in 1..=cx.tier.pick(2, 3) {
        seqs(KINDS, n..=n, |v| {
            if v.windows(2).any(|p| is_list(p[0]) && is_list(p[1])) {
                return;
            }
            for style in 0..3 {
                for titles in [false, true] {
                    for titled in [false, true] {
                        if cx.mine() {
                            let mut w = Words::default();
                            let doc: Vec<Blk> = v
                                .iter()
                                .map(|&k| {
                                    let mut b = kind(k, &mut w);
                                    if titles && !(16..=19).contains(&k) {
                                        b.title = Some(w.w());
                                    }
                                    annotate(&mut b, style, &mut w);
                                    b
                                })
                                .collect();
                            check(cx, n, &doc, titled, style == 0 && titles);
                        }
                    }
                }
            }
        });
    }
    cx.space("in blocks, list items and sections");
    for p in 0..CONTAINERS + 5 {
        seqs(KINDS, 1..=cx.tier.pick(2, 2), |v| {
            if v.windows(2).any(|q| is_list(q[0]) && is_list(q[1])) || p >= CONTAINERS && p < CONTAINERS + 3 && v.iter().any(|&k| is_list(k) || k == 18 || k == 19) {
                return;
            }
            if p < CONTAINERS && v.iter().any(|&k| delim_of(k) == container_delim(p)) {
                return;
            }
            if cx.mine() {
                let mut w = Words::default();
                let inner: Vec<Blk> = v.iter().map(|&k| kind(k, &mut w)).collect();
                let item = |principal: Inls, attached: Vec<Blk>| Item { principal, attached, nested: vec![] };
                let b: Blk = match p.checked_sub(CONTAINERS) {
                    None => container(p, inner),
                    Some(q @ (0 | 1)) => B::List(["*", "."][q].into(), vec![item(w.w(), inner), item(w.w(), vec![])]).into(),
                    Some(2) => B::DList(vec![
                        DItem { term: w.w(), principal: Some(w.w()), attached: inner, nested: vec![] },
                        DItem { term: w.w(), principal: Some(w.w()), attached: vec![], nested: vec![] },
                    ])
                    .into(),
                    Some(3) => B::Sec(1, w.w(), inner).into(),
                    _ => B::Sec(1, w.w(), vec![B::Sec(2, w.w(), inner).into(), B::Sec(2, w.w(), vec![para(&w.s())]).into()]).into(),
                };
                let mut doc = vec![para(&w.s()), b];
                if p < CONTAINERS + 3 {
                    doc.push(para(&w.s()));
                }
                for b in &mut doc {
                    annotate(b, v[0] % 3, &mut w);
                }
                check(cx, v.len() + 1, &doc, v.len() == 2, v.len() == 1);
            }
        });
    }
    cx.space("lists in lists");
    // depths of the items of a list
    seqs(2, 1..=cx.tier.pick(6, 8), |v| {
        if v[0] != 0 || v.windows(2).any(|p| p[1] > p[0] + 1) {
            return;
        }
        for m in ["*", "."] {
            if cx.mine() {
                let mut w = Words::default();
                fn build(v: &[usize], d: usize, at: &mut usize, m: &str, w: &mut Words) -> Blk {
                    let mut items: Vec<Item> = vec![];
                    while *at < v.len() && v[*at] >= d {
                        if v[*at] == d {
                            *at += 1;
                            items.push(Item { principal: w.w(), ..Item::default() });
                        } else {
                            let b = build(v, d + 1, at, m, w);
                            items.last_mut().unwrap().nested.push(b);
                        }
                    }
                    let other = if m == "*" { "." } else { "*" };
                    B::List(if d == 0 { m } else { other }.into(), items).into()
                }
                let mut b = build(v, 0, &mut 0, m, &mut w);
                annotate(&mut b, 0, &mut w);
                check(cx, v.len(), &[b], false, true);
            }
        }
    });
    cx.space("further down");
    for p in 0..DEEP {
        for q in 0..DEEP {
            for style in 0..3 {
                // two lists would be one, and a section is not in a section of its own level
                if cx.mine() {
                    let mut w = Words::default();
                    let mut doc = super::p08_spans::after(deep(p, w.w(), &mut w), vec![para(&w.s())]);
                    let more = deep(q, w.w(), &mut w);
                    doc = if matches!(more[0].b, B::Sec(..)) { [doc, more].concat() } else { super::p08_spans::after(doc, more) };
                    for b in &mut doc {
                        annotate(b, style, &mut w);
                    }
                    check(cx, 2, &doc, style == 1, q == 0);
                }
            }
        }
    }
    cx.space("first, last and next to anything");
    const NEXT: [&str; 9] = ["", " ", "\n", "(", ")", ", ", "-", "\"", "é"];
    for p in 0..SPOTS {
        seqs(NEXT.len(), 4..=4, |v| {
            let v: Vec<&str> = v.iter().map(|&n| NEXT[n]).collect();
            // nothing is ahead of the first but perhaps a parenthesis
            if [" ", "\n", ", ", ")"].contains(&v[0]) || [" ", "\n", ""].contains(&v[3]) || v[0] == "-" || one_line(p) && v.contains(&"\n") || cx.tier == Tier::Quick && p % 4 > 0 && v[0].len() + v[3].len() > 1 {
                return;
            }
            if cx.mine() {
                let mut w = Words::default();
                let i = [t(v[0]), vec![I::Fn(w.w())], t(v[1]), w.w(), t(v[2]), vec![I::Fn(w.w())], t(v[3])].concat();
                check(cx, 2, &spot(p, i, &mut w), false, false);
            }
        });
    }
    cx.space("contents");
    for s in 0..SPOTS {
        for a in 0..ATOMS {
            for b in 0..=ATOMS {
                // a footnote is not in a footnote, and some places have a single line
                if a == 17 || b == 18 || one_line(s) && (a == 18 || b == 19) || cx.tier == Tier::Quick && b > 0 && s > 3 && s < 8 {
                    continue;
                }
                if cx.mine() {
                    let mut w = Words::default();
                    let mut c = atom(a, &mut w);
                    if b > 0 {
                        c.extend(t(" "));
                        c.extend(atom(b - 1, &mut w));
                    }
                    let i = [w.w(), vec![I::Fn(c)], t(" "), w.w()].concat();
                    let doc = spot(s, i, &mut w);
                    check(cx, 2, &doc, false, b == 0);
                }
            }
        }
    }
    cx.space("many");
    for n in [1, 2, 9, 10, 11, 99, 100, 101, 300] {
        for per in [1, 3] {
            for titled in [false, true] {
                if cx.mine() {
                    let mut w = Words::default();
                    let doc: Vec<Blk> = (0..n)
                        .map(|_| {
                            let mut i = w.w();
                            for _ in 0..per {
                                i.push(I::Fn(w.w()));
                                i.extend(t(" "));
                            }
                            i.extend(w.w());
                            B::Para(i).into()
                        })
                        .collect();
                    check(cx, n * per, &doc, titled, n <= 11);
                }
            }
        }
    }
}
