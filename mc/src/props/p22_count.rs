//! The words that are counted are the words of the text.
use super::p08_spans::{atom, one_line, spot, ATOMS, SEPS, SPOTS};
use super::p09_text::{hides, text, BETWEEN};
use super::*;
use crate::engine::*;
use crate::sut;

fn add(s: &str, out: &mut Vec<String>) {
    out.extend(s.split_whitespace().map(|w| w.to_string()));
}

/// As `inl_text`, with footnotes apart from the word they are on
fn seen(v: &[I]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            I::Fn(v) => s += &format!(" {}", seen(v)),
            I::S(_, _, _, v) | I::Link(_, v) | I::Xref(_, v) => s += &seen(v),
            // kept as they are
            I::R(x, _) => s += x,
            x => s += &inl_text(std::slice::from_ref(x)),
        }
    }
    s
}

fn words(b: &Blk, out: &mut Vec<String>) {
    let inls = |v: &Inls, out: &mut Vec<String>| add(&seen(v), out);
    b.title.iter().for_each(|t| inls(t, out));
    match &b.b {
        B::Para(i) | B::AdmonPara(_, i) | B::QuotePara(i, _, _) => inls(i, out),
        B::Sec(_, t, v) => {
            inls(t, out);
            v.iter().for_each(|b| words(b, out));
        }
        B::List(_, items) => {
            for it in items {
                inls(&it.principal, out);
                it.attached.iter().chain(&it.nested).for_each(|b| words(b, out));
            }
        }
        B::DList(items) => {
            for it in items {
                inls(&it.term, out);
                it.principal.iter().for_each(|p| inls(p, out));
                it.attached.iter().chain(&it.nested).for_each(|b| words(b, out));
            }
        }
        B::Parent(_, v) | B::AdmonBlock(_, v) => v.iter().for_each(|b| words(b, out)),
        B::Leaf(_, v) | B::Source(_, v) => v.iter().for_each(|l| add(l, out)),
        B::Verse(v) => v.iter().for_each(|l| inls(l, out)),
        B::Table { rows, .. } => rows.iter().flatten().for_each(|c| inls(c, out)),
        B::Image(..) | B::Break(_) | B::CommentLine(_) | B::CommentBlock(_) => {}
    }
}

fn check(src: &str, want: &[String], o: &mut Obs) -> Result<(), String> {
    o.ran();
    let a = sut::parse(src)?;
    let text = a.all_text();
    let got: Vec<&str> = text.split_whitespace().collect();
    o.saw(&text);
    o.hit(match want.len() {
        0 => "no words",
        1..=9 => "a few words",
        _ => "ten words or more",
    });
    same("the words", &want.join("\n"), &got.join("\n"))?;
    // what a block has in all, without the blanks between its parts
    let all: String = a.blocks.iter().flat_map(|b| b.inlines()).map(|i| i.extract_values_to_string()).collect();
    same("the text of the blocks' inlines", &want.concat(), &all.split_whitespace().collect::<String>())?;
    same("how many", &want.len().to_string(), &a.word_count().to_string())
}

fn go(cx: &mut Cx, steps: usize, v: &[Blk]) {
    if cx.mine() {
        let src = source(v);
        let mut want = vec![];
        v.iter().for_each(|b| words(b, &mut want));
        cx.check(steps, &src, |o| check(&src, &want, o));
    }
}

fn titled(k: usize) -> bool {
    ![16, 17, 18, 19].contains(&k)
}

pub fn run(cx: &mut Cx) {
    cx.space("sequences of blocks");
    let max = cx.tier.pick(3, 4);
    seqs(KINDS, 0..=max, |ks| {
        if ks.windows(2).any(|p| is_list(p[0]) && is_list(p[1])) {
            return;
        }
        for titles in 0..if ks.len() < 3 { 1 << ks.len() } else { 2 } {
            if ks.len() > 2 && titles == 1 || (0..ks.len()).any(|i| titles >> i & 1 == 1 && !titled(ks[i])) {
                continue;
            }
            let w = &mut Words::default();
            let v: Vec<Blk> = ks
                .iter()
                .enumerate()
                .map(|(i, &k)| {
                    let mut b = kind(k, w);
                    b.title = (titles >> i & 1 == 1).then(|| t(&format!("{} {}", w.s(), w.s())));
                    b
                })
                .collect();
            go(cx, ks.len(), &v);
        }
    });
    cx.space("blocks inside of blocks, list items and sections");
    seqs(KINDS, 1..=2, |ks| {
        if ks.windows(2).any(|p| is_list(p[0]) && is_list(p[1])) {
            return;
        }
        for c in 0..CONTAINERS + 4 {
            if c < CONTAINERS && ks.iter().any(|&k| delim_of(k) == container_delim(c)) || c >= CONTAINERS && c != CONTAINERS + 3 && ks.iter().any(|&k| is_list(k)) {
                continue;
            }
            let w = &mut Words::default();
            let head = w.w();
            let kids: Vec<Blk> = ks.iter().map(|&k| kind(k, w)).collect();
            let last = para(&w.s());
            let b = match c {
                5 | 6 => B::List(["*", "."][c - 5].into(), vec![Item { principal: head, attached: kids, nested: vec![] }]).into(),
                7 => B::DList(vec![DItem { term: head, principal: Some(w.w()), attached: kids, nested: vec![] }]).into(),
                8 => B::Sec(1, head, kids).into(),
                _ => container(c, kids),
            };
            match c {
                8 => go(cx, ks.len() + 1, &[last, b]),
                _ => go(cx, ks.len() + 1, &[b, last]),
            }
        }
    });
    cx.space("formatting");
    for p in 0..SPOTS {
        seqs(ATOMS, 1..=cx.tier.pick(2, 3), |v| {
            for sep in 0..SEPS.len() {
                if one_line(p) && (v.contains(&18) || sep == 1) {
                    continue;
                }
                let w = &mut Words::default();
                let mut i = w.w();
                for &a in v {
                    i.extend(t(SEPS[sep]));
                    i.extend(atom(a, w));
                }
                i.extend(t(" "));
                i.extend(w.w());
                go(cx, v.len(), &spot(p, i, w));
            }
        });
    }
    cx.space("formatting in links and notes");
    for p in 0..SPOTS {
        seqs(ATOMS, 1..=2, |v| {
            for of in 0..4 {
                if one_line(p) && v.contains(&18) || v.contains(&17) || of == 0 && v.contains(&16) {
                    continue;
                }
                let w = &mut Words::default();
                let mut i = w.w();
                for &a in v {
                    i.extend(t(" "));
                    i.extend(atom(a, w));
                }
                if of > 1 {
                    i.extend(t(&format!(" {}", w.s())));
                }
                let x = if of % 2 == 0 { I::Link("https://x.org/y".into(), i) } else { I::Fn(i) };
                if of == 2 && v.contains(&16) {
                    continue;
                }
                go(cx, v.len() + 1, &spot(p, [w.w(), t(if of % 2 == 0 { " " } else { "" }), vec![x], t(" "), w.w()].concat(), w));
            }
        });
    }
    cx.space("line breaks and footnotes on words");
    for p in 0..8 {
        seqs(ATOMS, 2..=2, |v| {
            for kind in 0..2 {
                // constrained marks don't end ahead of a letter
                if kind == 1 && ![0, 7, 8, 9, 10, 11, 15, 16, 17, 19].contains(&v[0]) {
                    continue;
                }
                let w = &mut Words::default();
                let glue = |w: &mut Words| match kind {
                    0 => I::Br,
                    _ => I::Fn(t(&format!("{} {}", w.s(), w.s()))),
                };
                let mut i = [w.w(), t(" "), atom(v[0], w)].concat();
                i.push(glue(w));
                if kind == 1 {
                    i.extend(t(" "));
                }
                i.extend(atom(v[1], w));
                i.extend([t(" "), w.w(), vec![glue(w)], t(if kind == 0 { "" } else { ". " }), w.w()].concat());
                go(cx, 3, &spot(p, i, w));
            }
        });
    }
    cx.space("however many, and however far apart");
    for n in 0..cx.tier.pick(600, 5000) {
        for sep in [" ", "\n", "  ", "\t", " \n", "\n\n", "\n\n\n\n", "\n* ", "\n\n== "] {
            if cx.mine() {
                let v: Vec<String> = (0..n).map(|i| format!("w{i}")).collect();
                let src = v.join(sep);
                cx.check(n, &src, |o| check(&src, &v, o));
            }
        }
    }
    cx.space("words with markup between them");
    seqs(BETWEEN.len(), 1..=cx.tier.pick(3, 4), |v| {
        let src = text(v, true);
        if !hides(&src) && cx.mine() {
            cx.check(v.len(), &src, |o| {
                o.ran();
                let Ok(a) = sut::parse(&src) else {
                    o.hit("rejected");
                    return Ok(());
                };
                let all = a.all_text();
                o.saw(&all);
                same("the words", &p09_text::words(&src).join(" "), &p09_text::words(&all).join(" "))?;
                same("how many", &all.split_whitespace().count().to_string(), &a.word_count().to_string())
            });
        }
    });
    cx.space("documents with a header");
    for k in 0..KINDS {
        for head in ["= Some title here\n", "= Title\n:a: some value\n:b: c d\n", ":a: b c d\n", "= \n", "// nothing to see\n"] {
            if cx.mine() {
                let v = [kind(k, &mut Words::default()), para("a last one")];
                let src = format!("{head}\n{}", source(&v));
                let mut want = vec![];
                v.iter().for_each(|b| words(b, &mut want));
                cx.check(1, &src, |o| check(&src, &want, o));
            }
        }
    }
}
