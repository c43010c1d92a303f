//! A document with comments is the document without them.
use super::p06_verbatim::LINES;
use super::*;
use crate::engine::*;
use crate::sut;

/// Documents to put comments into, besides all pairs of blocks.
const DOCS: [&str; 14] = [
    "= Title\n:one: 1\n:two: 2\n\nfirst {one}\n\n== Section\n\ntext {two}\n",
    "a\nb *c\nd* e\nf\n",
    "* a\n* b\n. c\n. d\n* e\nt:: u\nv:: w\n",
    "* a\n+\nb\n+\n====\nc\n====\n* d\n",
    "t:: a\n+\nb\nu:: c\nd\n",
    "[cols=\"1,1\"]\n|===\n|a |b\n\n|c\n|d\n|===\n\nafter\n",
    "[[id]]\n.Title\n[role=\"r\"]\n====\na\n\n[NOTE]\n****\nb\n****\n====\n",
    "[verse]\n____\na\nb\n\nc\n____\n",
    "[quote,x,y]\nsaid\nso\n\nTIP: a\nb\n",
    "== A\n\n=== B\n\ntext\n\n== C\n",
    "image::a.png[]\n\n'''\n\n<<<\n\nlast\n",
    "<1> one\n<2> two\n",
    "a footnote:[b\nc] d\ne\n",
    "--\na\n\nb\n--\n\n____\nc\n____\n",
];

/// The lines a comment can go ahead of: those not inside of a verbatim block, nor of a table.
fn places(src: &str) -> Vec<usize> {
    let mut out = vec![];
    let mut open: Option<&str> = None;
    for (i, l) in src.lines().enumerate() {
        if open.is_none() {
            out.push(i);
        }
        match open {
            Some(d) if d == l => open = None,
            None if ["----", "....", "++++", "////", "|==="].contains(&l) => open = Some(l),
            _ => {}
        }
    }
    out.push(src.lines().count());
    out
}

fn insert(src: &str, at: &[(usize, &str)]) -> String {
    let mut v: Vec<String> = vec![];
    for (i, l) in src.lines().chain([""]).enumerate() {
        for (_, c) in at.iter().filter(|(p, _)| *p == i) {
            v.push(c.to_string());
        }
        v.push(l.into());
    }
    v.join("\n")
}

fn case(cx: &mut Cx, src: &str, at: &[(usize, &str)]) {
    if cx.mine() {
        let with = insert(src, at);
        cx.check(at.len() + 1, &with, |o| {
            o.ran();
            let want = sut::tree(src);
            if want.starts_with("error:") {
                return Err(format!("without comments:\n{src}\n{want}"));
            }
            let got = sut::tree(&with);
            o.saw(&got);
            same("the comment left something behind", &want, &got)
        });
    }
}

pub fn run(cx: &mut Cx) {
    cx.space("a comment line anywhere in a pair of blocks");
    seqs(KINDS, 1..=cx.tier.pick(2, 3), |v| {
        let mut w = Words::default();
        let doc: Vec<Blk> = v.iter().map(|&k| kind(k, &mut w)).collect();
        let src = source(&doc);
        for p in places(&src) {
            for c in ["// c", "//", "//* c"] {
                case(cx, &src, &[(p, c)]);
            }
        }
    });
    cx.space("a comment line, whatever it says, anywhere");
    let texts: Vec<String> = LINES
        .iter()
        .flat_map(|l| [format!("//{l}"), format!("// {l}")])
        .filter(|l| l != "////" && !l.contains("::") && l != "//////")
        .collect();
    for d in DOCS {
        for p in places(d) {
            for t in &texts {
                case(cx, d, &[(p, t)]);
            }
        }
    }
    cx.space("two or three comment lines");
    for d in DOCS {
        let ps = places(d);
        for (i, &p) in ps.iter().enumerate() {
            for &q in &ps[i..] {
                case(cx, d, &[(p, "// c"), (q, "// *d")]);
                case(cx, d, &[(p, "// c"), (p, "//d"), (q, "// *d")]);
            }
        }
    }
    cx.space("a comment block between blocks");
    let n = cx.tier.pick(1, 2);
    for d in DOCS {
        let lines: Vec<&str> = d.lines().collect();
        for p in places(d) {
            // where there is a blank line, or the document begins or ends
            let blank = |i: Option<usize>| i.and_then(|i| lines.get(i)).is_none_or(|l| l.is_empty());
            if !blank(p.checked_sub(1)) {
                continue;
            }
            // which inside of a list, a verse or a table's rows means something else
            if d.contains("verse") && p > 0 && p < lines.len() || d.contains("|===") && p > 0 && p < 7 {
                continue;
            }
            seqs(LINES.len(), 1..=n, |v| {
                let text: Vec<&str> = v.iter().map(|&i| LINES[i]).collect();
                if text.contains(&"////") {
                    return;
                }
                let c = format!("////\n{}\n////", text.join("\n"));
                case(cx, d, &[(p, &c)]);
                case(cx, d, &[(p, &format!("{c}\n"))]);
                case(cx, d, &[(p, &format!("{c}\n{c}"))]);
            });
        }
    }
    cx.space("a comment block between items and delimited blocks");
    for d in ["* a\n* b\n* c\n", ". a\n* b\n. c\n", "t:: a\nu:: b\n", "====\na\n====\n----\nb\n----\n|===\n|a\n|===\n", "* a\n+\nb\n* c\n", "<1> a\n<2> b\n"] {
        for p in places(d) {
            if d.contains("+\n") && (1..=2).contains(&p) || d.contains("====") && ![0, 3, 6, 9].contains(&p) {
                continue;
            }
            for l in LINES {
                if l != "////" {
                    let c = format!("////\n{l}\n\n{l}\n////");
                    case(cx, d, &[(p, &c)]);
                }
            }
        }
    }
    cx.space("a comment block ahead of what a title, id or list of attributes is about");
    const AHEAD: [&str; 4] = [".T *u*", "[[i]]", "[role=r]", "[a=b,c]"];
    seqs(AHEAD.len(), 1..=cx.tier.pick(2, 3), |v| {
        if v.iter().enumerate().any(|(i, k)| v[..i].contains(k)) {
            return;
        }
        for k in 0..KINDS {
            let b = kind(k, &mut Words::default());
            // breaks, and blocks that have a line of that kind ahead of them already
            if (16..=19).contains(&k) || !b.style().is_empty() {
                continue;
            }
            let ahead: String = v.iter().map(|&i| format!("{}\n", AHEAD[i])).collect();
            let src = format!("w\n\n{ahead}{}\nw\n", source(&[b]));
            for p in 2..=v.len() + 2 {
                for c in ["////\nc\n////", "////\n////", "////\n.c\n\n[[d]]\n////", "////\nc\n////\n////\nd\n////"] {
                    case(cx, &src, &[(p, c)]);
                }
            }
        }
    });
    cx.space("a comment block that is never closed");
    for d in DOCS {
        for l in LINES {
            for blank in ["", "\n"] {
                if l != "////" && cx.mine() {
                    let with = format!("{d}\n////\n{l}{blank}");
                    cx.check(2, &with, |o| {
                        o.ran();
                        same("the comment left something behind", &sut::tree(d), &sut::tree(&with))
                    });
                }
            }
        }
    }
}
