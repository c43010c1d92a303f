//! Headings open sections that nest by level, and everything up to the next heading of the same or
//! a higher rank belongs to the section.
use super::p03_blocks::holds_src;
use super::*;
use crate::engine::*;
use crate::sut;

/// Nests a flat list of (level, title, body) the way the language says.
pub fn nest(flat: &[(usize, Inls, Vec<Blk>)]) -> Vec<Blk> {
    let mut out = vec![];
    let mut i = 0;
    while i < flat.len() {
        let (l, t, b) = &flat[i];
        let mut j = i + 1;
        while j < flat.len() && flat[j].0 > *l {
            j += 1;
        }
        let mut body = b.clone();
        body.extend(nest(&flat[i + 1..j]));
        out.push(B::Sec(*l, t.clone(), body).into());
        i = j;
    }
    out
}

/// The document as written, whatever the levels turn out to be.
fn write(pre: &[Blk], flat: &[(usize, Inls, Vec<Blk>)]) -> String {
    let mut parts: Vec<String> = vec![];
    if !pre.is_empty() {
        parts.push(source(pre));
    }
    for (l, t, b) in flat {
        let mut s = format!("{} {}\n", "=".repeat(l + 1), inl_src(t));
        if !b.is_empty() {
            s += &format!("\n{}", source(b));
        }
        parts.push(s);
    }
    parts.join("\n")
}

pub fn run(cx: &mut Cx) {
    cx.space("sequences of headings");
    // each heading is a level and whether there is text underneath
    seqs(8, 1..=cx.tier.pick(5, 6), |v| {
        if cx.mine() {
            let mut w = Words::default();
            let flat: Vec<_> = v
                .iter()
                .map(|&x| (x % 4 + 1, w.w(), if x >= 4 { vec![para(&w.s())] } else { vec![] }))
                .collect();
            let src = write(&[], &flat);
            let doc = nest(&flat);
            cx.check(v.len(), &src, |o| holds_src(&doc, &src, o));
        }
    });
    cx.space("text before, every kind of block inside");
    seqs(KINDS, 1..=2, |v| {
        if v.len() == 2 && is_list(v[0]) && is_list(v[1]) {
            return;
        }
        for (a, b) in [(1, 1), (1, 2), (2, 1), (1, 4), (3, 2)] {
            if cx.mine() {
                let mut w = Words::default();
                let pre = vec![kind(v[0], &mut w)];
                let flat = vec![
                    (a, w.w(), v.iter().map(|&k| kind(k, &mut w)).collect()),
                    (b, w.w(), vec![kind(v[v.len() - 1], &mut w)]),
                    (1, w.w(), vec![para(&w.s())]),
                ];
                let src = write(&pre, &flat);
                let mut doc = pre;
                doc.extend(nest(&flat));
                cx.check(v.len() + 2, &src, |o| holds_src(&doc, &src, o));
            }
        }
    });
    cx.space("many headings");
    for n in [10usize, 20, 60] {
        for step in 1..=7usize {
            if cx.mine() {
                let mut w = Words::default();
                let flat: Vec<_> =
                    (0..n).map(|i| ((i * step / 2) % 4 + 1, w.w(), vec![para(&w.s())])).collect();
                let src = write(&[], &flat);
                let doc = nest(&flat);
                cx.check(n, &src, |o| holds_src(&doc, &src, o));
            }
        }
    }
    cx.space("level offsets");
    // :leveloffset: given as a number, or as a signed change, before each heading or not at all
    let offs: [&str; 8] = ["", "0", "1", "2", "+1", "+2", "-1", "-2"];
    seqs(offs.len(), 1..=cx.tier.pick(3, 4), |v| {
        seqs(5, v.len()..=v.len(), |levels| {
            // the first heading of a document may be its title
            for title in [true, false] {
            if !title && levels[0] == 0 && ["", "0"].contains(&offs[v[0]]) || !cx.mine() {
                continue;
            }
            let mut w = Words::default();
            let mut src = String::from(if title { "= Title\n" } else { "" });
            let mut cur: i32 = 0;
            let mut flat = vec![];
            let mut bad = false;
            for (&o, &l) in v.iter().zip(levels) {
                let off = offs[o];
                if !off.is_empty() {
                    src += &format!("\n:leveloffset: {off}\n");
                    cur = if off.starts_with(['+', '-']) { cur + off.parse::<i32>().unwrap() } else { off.parse().unwrap() };
                }
                let t = w.w();
                let p = w.s();
                src += &format!("\n{} {}\n\n{p}\n", "=".repeat(l + 1), inl_src(&t));
                let level = l as i32 + cur;
                bad |= !(1..=4).contains(&level);
                flat.push((level.max(0) as usize, t, vec![para(&p)]));
            }
            cx.check(v.len() * 2, &src, |o| {
                o.ran();
                let got = sut::tree(&src);
                o.saw(&got);
                if bad {
                    o.hit("out of range");
                    return if got.starts_with("error:") { Ok(()) } else { Err(format!("accepted a level that does not exist:\n{got}")) };
                }
                let got: String = got.lines().filter(|l| !l.starts_with("attr ")).map(|l| format!("{l}\n")).collect();
                let head = if title { "header \"Title\"\n" } else { "" };
                same("the tree differs", &format!("{head}{}", canon_all(&nest(&flat))), &got)
            });
            }
        });
    });
    cx.space("titles");
    let texts = ["Plain", "Two words", "A *b* c", "_b_", "`c`", "1. x", "a = b", "a == b", "Q: a", "it's", "É", "a | b", "a :: b"];
    for (i, a) in texts.iter().enumerate() {
        for (l, b) in (1..=4).zip(texts.iter().cycle().skip(i)) {
            for doc_title in [false, true] {
                if cx.mine() {
                    let src = format!("{}{} {a}\n\nx\n\n{} {b}\n", if doc_title { "= T\n\n" } else { "" }, "=".repeat(l + 1), "=".repeat(l + 1));
                    cx.check(3, &src, |o| {
                        o.ran();
                        // the title is whatever the text is as a paragraph
                        let as_para = |s: &str| {
                            let t = sut::tree(&format!("{s}\n"));
                            t.trim_end().strip_prefix("para ").map(|s| s.to_string()).ok_or(t)
                        };
                        let (ta, tb) = (as_para(a)?, as_para(b)?);
                        let want = format!(
                            "{}section {l} {ta}\n  para \"x\"\nsection {l} {tb}\n",
                            if doc_title { "header \"T\"\n" } else { "" }
                        );
                        same("the tree differs", &want, &sut::tree(&src))
                    });
                }
            }
        }
    }
    cx.space("titles that look like something else");
    odd(cx.tier.pick(3, 4), |s| {
        for l in [0, 1, 4] {
            if cx.mine() {
                let src = format!("{} {s}\n\nx\n", "=".repeat(l + 1));
                cx.check(s.len(), &src, |o| {
                    o.ran();
                    let got = sut::tree(&src);
                    o.saw(&got);
                    let title = crate::canon::esc(s);
                    let want = if l == 0 { format!("header \"{title}\"\npara \"x\"\n") } else { format!("section {l} \"{title}\"\n  para \"x\"\n") };
                    same("the tree differs", &want, &got)
                });
            }
        }
    });
    cx.space("headings that are not allowed");
    for pre in ["", "text\n\n", "== A\n\n", "= T\n\n", "= T\n\ntext\n\n"] {
        for eq in 1..=7 {
            for mid in ["", "=== B\n\n"] {
                if cx.mine() {
                    let src = format!("{pre}{mid}{} X\n\ntext\n", "=".repeat(eq));
                    cx.check(3, &src, |o| {
                        o.ran();
                        let got = sut::tree(&src);
                        let is_err = got.starts_with("error:");
                        // only the first line of a document can be its title; there are five levels
                        let want_err = eq > 5 || eq == 1 && !(pre.is_empty() && mid.is_empty());
                        if is_err == want_err {
                            o.hit(if is_err { "rejected" } else { "accepted" });
                            Ok(())
                        } else {
                            Err(format!("expected {}:\n{got}", if want_err { "an error" } else { "no error" }))
                        }
                    });
                }
            }
        }
    }
}
