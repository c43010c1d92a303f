//! List items go to the list their marker continues, new markers nest, and a continuation attaches
//! a block to the item it follows.
use super::p03_blocks::holds_src;
use super::*;
use crate::engine::*;

pub const MARKERS: [&str; 4] = ["*", ".", "t", "<N>"];

#[derive(Clone)]
pub struct Line {
    marker: &'static str,
    text: Inls,
    text2: Inls,
    attached: Vec<Blk>,
}

/// Builds the lists a run of item lines stands for.
fn build(lines: &[Line], i: &mut usize, outer: &[&'static str]) -> Blk {
    let m = lines[*i].marker;
    let mut inside: Vec<&'static str> = outer.to_vec();
    inside.push(m);
    let mut items = vec![];
    let mut ditems = vec![];
    while *i < lines.len() && lines[*i].marker == m {
        let l = &lines[*i];
        *i += 1;
        let mut nested = vec![];
        while *i < lines.len() && !inside.contains(&lines[*i].marker) {
            nested.push(build(lines, i, &inside));
        }
        if m == "t" {
            ditems.push(DItem {
                term: l.text.clone(),
                principal: Some(l.text2.clone()),
                attached: l.attached.clone(),
                nested,
            });
        } else {
            items.push(Item { principal: l.text.clone(), attached: l.attached.clone(), nested });
        }
    }
    if m == "t" { B::DList(ditems).into() } else { B::List(m.into(), items).into() }
}

pub fn lists(lines: &[Line]) -> Blk {
    let mut i = 0;
    let b = build(lines, &mut i, &[]);
    assert_eq!(i, lines.len());
    b
}

/// A run whose first marker is met again only at the top, so that it is one list.
pub fn line(m: &'static str, w: &mut Words, two: bool) -> Line {
    Line { marker: m, text: if two && m != "t" { w.two() } else { w.w() }, text2: if two { w.two() } else { w.w() }, attached: vec![] }
}

fn go(cx: &mut Cx, steps: usize, make: impl FnOnce(&mut Words) -> Vec<Blk>) {
    if cx.mine() {
        let doc = make(&mut Words::default());
        let src = source(&doc);
        cx.check(steps, &src, |o| holds_src(&doc, &src, o));
    }
}

pub fn run(cx: &mut Cx) {
    cx.space("sequences of markers");
    seqs(MARKERS.len(), 1..=cx.tier.pick(8, 10), |v| {
        for two in [false, true] {
            go(cx, v.len(), |w| {
                let lines: Vec<Line> = v.iter().map(|&m| line(MARKERS[m], w, two)).collect();
                vec![lists(&lines), para(&w.s())]
            });
        }
    });
    cx.space("sequences of items with blocks attached");
    let attach: [&[usize]; 6] = [&[], &[0], &[1], &[3], &[7], &[0, 1]];
    seqs(MARKERS.len() * attach.len(), 1..=cx.tier.pick(3, 4), |v| {
        go(cx, v.len() * 2, |w| {
            let lines: Vec<Line> = v
                .iter()
                .map(|&x| {
                    let mut l = line(MARKERS[x % MARKERS.len()], w, false);
                    l.attached = attach[x / MARKERS.len()].iter().map(|&k| kind(k, w)).collect();
                    l
                })
                .collect();
            vec![lists(&lines), para(&w.s())]
        });
    });
    cx.space("every kind of block attached");
    for m in 0..MARKERS.len() {
        seqs(KINDS, 1..=2, |v| {
            if v.iter().any(|&k| is_list(k)) {
                return;
            }
            for at in 0..4 {
                go(cx, v.len() + 3, |w| {
                    let mut lines: Vec<Line> = (0..2).map(|_| line(MARKERS[m], w, false)).collect();
                    if at >= 2 {
                        lines.push(line(if m == 0 { "." } else { "*" }, w, false));
                    }
                    let at = at.min(lines.len() - 1);
                    lines[at].attached = v.iter().map(|&k| kind(k, w)).collect();
                    vec![lists(&lines), para(&w.s())]
                });
            }
        });
    }
    cx.space("lists in other places");
    seqs(MARKERS.len(), 1..=4, |v| {
        for c in 0..CONTAINERS + 2 {
            for around in 0..4 {
                go(cx, v.len() + 2, |w| {
                    let mut inner = vec![];
                    if around & 1 != 0 {
                        inner.push(para(&w.s()));
                    }
                    let lines: Vec<Line> = v.iter().map(|&m| line(MARKERS[m], w, false)).collect();
                    inner.push(lists(&lines));
                    if around & 2 != 0 {
                        inner.push(para(&w.s()));
                    }
                    if c < CONTAINERS {
                        vec![container(c, inner), para(&w.s())]
                    } else {
                        let t = w.w();
                        vec![B::Sec(c - CONTAINERS + 1, t, inner).into(), B::Sec(1, w.w(), vec![para(&w.s())]).into()]
                    }
                });
            }
        }
    });
    cx.space("texts that look like something else");
    odd(cx.tier.pick(3, 4), |s| {
        for m in 0..MARKERS.len() {
            for first in [true, false] {
                go(cx, s.len(), |w| {
                    let mut lines: Vec<Line> = (0..2).map(|_| line(MARKERS[m], w, false)).collect();
                    let l = &mut lines[if first { 0 } else { 1 }];
                    *(if m == 2 { &mut l.text2 } else { &mut l.text }) = t(s);
                    vec![lists(&lines), para(&w.s())]
                });
            }
        }
    });
    cx.space("lists in blocks in lists");
    // a block in an item of each list but the last has the next one; all of it may be in another
    let same = |a: usize, b: usize| container_delim(a) == container_delim(b);
    seqs(MARKERS.len() * CONTAINERS, 2..=cx.tier.pick(3, 4), |v| {
        let c: Vec<usize> = v.iter().map(|x| x / MARKERS.len()).collect();
        // a delimiter closes what it opened; the last list has no block in it
        if (0..c.len()).any(|i| (0..i).any(|j| same(c[i], c[j]))) {
            return;
        }
        for whole in [false, true] {
            go(cx, v.len() * 3, |w| {
                let mut inner: Vec<Blk> = vec![];
                for i in (0..v.len()).rev() {
                    let m = MARKERS[v[i] % MARKERS.len()];
                    let mut lines: Vec<Line> = (0..2).map(|_| line(m, w, false)).collect();
                    if !inner.is_empty() {
                        lines[0].attached = vec![container(c[i], inner)];
                    }
                    inner = vec![lists(&lines)];
                }
                if whole {
                    inner = vec![container(c[v.len() - 1], inner)];
                }
                [inner, vec![para(&w.s())]].concat()
            });
        }
    });
    cx.space("texts on the line after the term");
    seqs(MARKERS.len(), 1..=cx.tier.pick(6, 8), |v| {
        for every in 1..=2 {
            if !v.contains(&2) || every == 2 && v.iter().filter(|&&m| m == 2).count() < 2 || !cx.mine() {
                continue;
            }
            let w = &mut Words::default();
            let lines: Vec<Line> = v.iter().map(|&m| line(MARKERS[m], w, false)).collect();
            let doc = vec![lists(&lines), para(&w.s())];
            let mut n = 0;
            let src: String = source(&doc)
                .lines()
                .map(|l| match l.contains(":: ") {
                    true => {
                        n += 1;
                        l.replace(":: ", if n % every == 0 { "::\n" } else { ":: " }) + "\n"
                    }
                    false => format!("{l}\n"),
                })
                .collect();
            cx.check(v.len(), &src, |o| holds_src(&doc, &src, o));
        }
    });
    cx.space("marks of terms in texts, near and far");
    for m in 0..MARKERS.len() {
        for n in [1, 2, 3, 5, 9, 10, 20, 50] {
            for mark in [":: ", ":::: ", " :: "] {
                for other in 0..MARKERS.len() {
                    go(cx, n, |w| {
                        let mut lines: Vec<Line> = [m, other, m].iter().map(|&m| line(MARKERS[m], w, false)).collect();
                        let words: Vec<String> = (0..n).map(|_| w.s()).collect();
                        let text = t(&format!("{}{mark}{}", words.join(" "), w.s()));
                        *(if m == 2 { &mut lines[0].text2 } else { &mut lines[0].text }) = text;
                        vec![lists(&lines), para(&w.s())]
                    });
                }
            }
        }
    }
    cx.space("long lists");
    for n in [9usize, 10, 12, 35] {
        for m in 0..MARKERS.len() {
            go(cx, n, |w| {
                let lines: Vec<Line> = (0..n).map(|_| line(MARKERS[m], w, false)).collect();
                vec![lists(&lines), para(&w.s())]
            });
        }
    }
    cx.space("callouts");
    for n in 1..=12usize {
        for attached in 0..3 {
            for after in [0, 1, 16] {
                go(cx, n * 2, |w| {
                    let items: Vec<Item> = (0..n)
                        .map(|i| Item {
                            principal: w.two(),
                            attached: if attached == 1 && i == n - 1 || attached == 2 && i == 0 { vec![para(&w.s())] } else { vec![] },
                            nested: vec![],
                        })
                        .collect();
                    vec![para(&w.s()), B::List("<N>".into(), items).into(), kind(after, w)]
                });
            }
        }
    }
}
