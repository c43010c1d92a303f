//! An include takes the lines that it asks for, and takes code exactly as it is.
use super::p06_verbatim::{find, meant, text, LINES};
use super::p11_includes::{f, label, Tree};
use super::*;
use crate::engine::*;
use crate::sut;

fn listing(src: &str, t: &Tree) -> Result<String, String> {
    let a = sut::parse_at(src, &t.dir.join("main.adoc")).map_err(|e| format!("rejected: {e}"))?;
    let v = sut::json(&a);
    let mut found = vec![];
    find(&v, "listing", &mut found);
    match found[..] {
        [l] => Ok(text(l)),
        _ => Err(format!("{} listings", found.len())),
    }
}

/// The lines have to be those of the listing. What follows the include may be a line further down.
fn code(cx: &mut Cx, attrs: &str, file: &str, want: &[String]) {
    let main = format!("----\nfirst\ninclude::part.rs[{attrs}]\nlast\n----\n");
    let files = vec![f("main.adoc", main), f("part.rs", file)];
    let l = label(&files);
    let t = Tree::new(cx, &files);
    cx.check(want.len() + 1, &l, |o| {
        o.ran();
        let got = listing(&files[0].1, &t)?;
        o.saw(&got);
        let mut all = vec!["first".to_string()];
        all.extend(want.iter().map(|l| meant(l)));
        let head = format!("\n{}\n", all.join("\n"));
        let ok = got == format!("{head}last\n") || got == format!("{head}\nlast\n");
        if ok {
            return Ok(());
        }
        same("the lines of the listing", &format!("{head}last\n"), &got)
    });
}

/// The document has to be the same as with a file of just those lines.
fn doc(cx: &mut Cx, attrs: &str, file: &str, want: &[String], more: &str) {
    let main = |n: &str, a: &str| format!("before\n\ninclude::{n}.adoc[{a}]\n\nafter\n\n== S\n\nin\n");
    let only: String = want.iter().map(|l| format!("{l}\n")).collect();
    let with = if more.is_empty() { attrs.to_string() } else { format!("{attrs},{more}") };
    let files = vec![f("main.adoc", main("part", &with)), f("part.adoc", file), f("only.adoc", only)];
    let l = label(&files);
    let t = Tree::new(cx, &files);
    cx.check(want.len() + 1, &l, |o| {
        o.ran();
        o.ran();
        let at = t.dir.join("main.adoc");
        let got = sut::tree_at(&files[0].1, &at);
        o.saw(&got);
        same("the tree", &sut::tree_at(&main("only", more), &at), &got)
    });
}

/// One part of `lines=`, and the last line it takes in
fn part(k: usize, n: usize) -> (String, usize, usize) {
    // single lines, ranges, to the end in both ways, and out of bounds
    let mut all = vec![];
    for a in 1..=n + 1 {
        all.push((a.to_string(), a, a));
        for b in a..=n + 1 {
            all.push((format!("{a}..{b}"), a, b));
        }
        all.push((format!("{a}.."), a, usize::MAX));
        all.push((format!("{a}..-1"), a, usize::MAX));
    }
    all.push(("1..2147483647".into(), 1, usize::MAX));
    all.push(("12".into(), 12, 12));
    all.push(("2..10".into(), 2, 10));
    all[k % all.len()].clone()
}

fn parts(n: usize) -> usize {
    (n + 1) * 3 + (n + 1) * (n + 2) / 2 + 3
}

/// A file's n lines, of which some are selected
fn file(n: usize, make: impl Fn(usize) -> String, sel: impl Fn(usize) -> bool) -> (Vec<String>, Vec<String>) {
    let all: Vec<String> = (1..=n).map(make).collect();
    let want = all.iter().enumerate().filter(|(i, _)| sel(i + 1)).map(|(_, l)| l.clone()).collect();
    (all, want)
}

pub fn run(cx: &mut Cx) {
    cx.space("lines of code");
    for n in [1usize, 2, 3, 5, cx.tier.pick(5, 7)] {
        seqs(parts(n), 1..=2, |v| {
            for way in 0..3 {
                if way == 1 && v.len() == 1 || !cx.mine() {
                    continue;
                }
                let ps: Vec<_> = v.iter().map(|&k| part(k, n)).collect();
                let spec: Vec<&str> = ps.iter().map(|p| p.0.as_str()).collect();
                let spec = [format!("lines={}", spec.join(";")), format!("lines=\"{}\"", spec.join(",")), format!("lines=\"{}\"", spec.join(";"))][way].clone();
                let (all, want) = file(n, |i| format!("    l{i};"), |i| ps.iter().any(|p| p.1 <= i && i <= p.2));
                let nl = if v[0] % 2 == 0 { "\n" } else { "" };
                code(cx, &spec, &(all.join("\n") + nl), &want);
            }
        });
    }
    cx.space("lines of a document");
    // a line of text, none, a heading, an item, a delimiter of a block
    const DOC: [&str; 8] = ["text", "", "== Heading", "* item", "====", "----", ".Title", "|==="];
    seqs(DOC.len(), 1..=cx.tier.pick(4, 5), |v| {
        for a in 1..=v.len() {
            for b in a..=v.len() {
                for more in ["", "leveloffset=+1"] {
                    if !cx.mine() {
                        continue;
                    }
                    let (all, want) = file(v.len(), |i| if v[i - 1] == 0 { format!("text{i}") } else { DOC[v[i - 1]].to_string() }, |i| a <= i && i <= b);
                    doc(cx, &format!("lines={a}..{b}"), &(all.join("\n") + "\n"), &want, more);
                }
            }
        }
    });
    cx.space("lines that look like markup");
    seqs(LINES.len(), 2..=cx.tier.pick(2, 3), |v| {
        for (a, b) in [(1, 1), (2, 2), (3, 3), (1, 2), (2, 3), (1, 3)] {
            if cx.mine() {
                let (all, want) = file(v.len() + 1, |i| if i > v.len() { "end".into() } else { LINES[v[i - 1]].to_string() }, |i| a <= i && i <= b);
                code(cx, &format!("lines={a}..{b}"), &(all.join("\n") + "\n"), &want);
            }
        }
    });
    cx.space("all of the code");
    seqs(LINES.len(), 1..=cx.tier.pick(2, 3), |v| {
        for nl in ["\n", ""] {
            if !(nl.is_empty() && LINES[v[v.len() - 1]].is_empty()) && cx.mine() {
                let all: Vec<String> = v.iter().map(|&k| LINES[k].to_string()).collect();
                code(cx, "", &(all.join("\n") + nl), &all);
            }
        }
    });
    cx.space("characters of code");
    const CS: [&str; 16] = ["a", " ", "\t", "*", "_", "`", "#", "<", ">", "&", "\"", "'", "+", "{", "é", "\n"];
    seqs(CS.len(), 1..=cx.tier.pick(3, 4), |v| {
        if cx.mine() {
            let s: String = v.iter().map(|&k| CS[k]).collect();
            let all: Vec<String> = s.split('\n').map(String::from).collect();
            code(cx, "", &(s + "\n"), &all);
        }
    });
    cx.space("tags");
    // lines of text, and where two tags start and end
    seqs(5, 1..=cx.tier.pick(5, 6), |v| {
        let mut open = [false; 2];
        let mut fine = true;
        for &k in v {
            match k {
                1 | 3 => {
                    fine &= !open[k / 2];
                    open[k / 2] = true;
                }
                2 | 4 => open[k / 2 - 1] = false,
                _ => {}
            }
        }
        if !fine {
            return;
        }
        for (which, (attrs, a, b)) in
            [("", true, true), ("tag=a", true, false), ("tags=b", false, true), ("tags=a;b", true, true), ("tag=c", false, false), ("tags=\"b;a\"", true, true)]
                .into_iter()
                .enumerate()
        {
            for adoc in [false, true] {
                if !cx.mine() {
                    continue;
                }
                let style = (v.iter().sum::<usize>() + v.len() + which) % 6;
                let (mut all, mut want) = (vec![], vec![]);
                let mut open = [false; 2];
                for (i, &k) in v.iter().enumerate() {
                    let name = ["a", "b"][(k + 1) / 2 % 2 ^ 1];
                    let dir = match k {
                        0 => String::new(),
                        1 | 3 => format!("tag::{name}[]"),
                        _ => format!("end::{name}[]"),
                    };
                    if k == 0 {
                        let l = ["text", "retag::a[]", "tag::a", "tag:a[]", "bend::b[]", "// see tag a", "x"][i % 7].to_string() + &i.to_string();
                        if attrs.is_empty() || a && open[0] || b && open[1] {
                            want.push(l.clone());
                        }
                        all.push(l);
                    } else {
                        open[(k - 1) / 2] = k % 2 == 1;
                        all.push(match if adoc { 0 } else { style } {
                            0 => format!("// {dir}"),
                            1 => format!("# {dir}"),
                            2 => format!("<!-- {dir} -->"),
                            3 => format!("    /* {dir} */"),
                            4 => dir,
                            _ => format!("--{dir}"),
                        });
                    }
                }
                let s = all.join("\n") + "\n";
                if adoc {
                    doc(cx, if attrs.is_empty() { "role=x" } else { attrs }, &s, &want, "");
                } else {
                    code(cx, attrs, &s, &want);
                }
            }
        }
    });
    cx.space("several tags");
    // apart, nested, overlapping and twice; what is asked for is any of four, in any order
    const LAYOUTS: [&str; 5] = ["x<a1>a2<b3>b4<c5>c6<d7>d8", "x<a1<b2<c3<d4>d5>c6>b7>a8", "<a1<b2>a3<c4>b5<d6>c7>d8", "<d1>d2<a3>a4<d5>d6<a7>a8<c9>c", "<b1>b<c2>c<a3<d4>d5>a6<b7<c8>c9>b"];
    for layout in LAYOUTS {
        seqs(4, 1..=4, |v| {
            if v.iter().enumerate().any(|(i, x)| v[..i].contains(x)) {
                return;
            }
            for way in 0..4 {
                if way > 2 && v.len() < 2 || !cx.mine() {
                    continue;
                }
                let names: Vec<String> = v.iter().map(|&k| ["a", "b", "c", "d"][k].to_string()).collect();
                let attrs = match way {
                    0 => format!("tags={}", names.join(";")),
                    1 => format!("tags=\"{}\"", names.join(";")),
                    2 => format!("tag={},tags={}", names[0], names.join(";")),
                    _ => format!("tag={},tags={}", names[0], names[1..].join(";")),
                };
                let (mut all, mut want, mut open) = (vec![], vec![], vec![]);
                let mut at = layout.chars();
                while let Some(c) = at.next() {
                    match c {
                        '<' | '>' => {
                            let name = at.next().unwrap().to_string();
                            all.push(format!("// {}::{name}[]", if c == '<' { "tag" } else { "end" }));
                            match c {
                                '<' => open.push(name),
                                _ => open.retain(|n| *n != name),
                            }
                        }
                        _ => {
                            all.push(format!("line {c}"));
                            if open.iter().any(|n| names.contains(n)) {
                                want.push(format!("line {c}"));
                            }
                        }
                    }
                }
                code(cx, &attrs, &(all.join("\n") + "\n"), &want);
            }
        });
    }
    cx.space("names of tags");
    let names = ["a", "ab", "abc", "b", "a-b", "a_b", "a.b", "é", "A", "tag", "end", "1"];
    for open in names {
        for asked in names {
            for plural in ["tag", "tags"] {
                if cx.mine() {
                    let s = format!("x\n// tag::{open}[]\ny\n// end::{open}[]\nz\n");
                    let want: &[String] = if open == asked { &["y".to_string()] } else { &[] };
                    code(cx, &format!("{plural}={asked}"), &s, want);
                }
            }
        }
    }
    cx.space("long files");
    for n in [9usize, 10, 11, 99, 100, 101, 300] {
        for (a, b) in [(1, 9), (9, 10), (10, 10), (10, 99), (99, 101), (100, 300), (2, usize::MAX)] {
            if cx.mine() {
                let spec = if b == usize::MAX { format!("{a}..-1") } else { format!("{a}..{b}") };
                let (all, want) = file(n, |i| format!("line {i}"), |i| a <= i && i <= b);
                code(cx, &format!("lines={spec}"), &(all.join("\n") + "\n"), &want);
            }
        }
    }
}
