//! The Word document has each block's text in order, with its formatting and the style for it.
use super::p04_sections::nest;
use super::p05_lists::{line, lists, MARKERS};
use super::p08_spans::{atom, one_line, spot, verse, ATOMS, SEPS, SPOTS};
use super::*;
use crate::docx::{self, Want};
use crate::engine::*;
use crate::sut;
use std::path::Path;

/// Images are read, so they have to be there: a PNG for each target, all of different sizes.
fn images(v: &mut [Blk], dir: &Path, n: &mut usize, found: &mut Vec<(String, String)>) {
    for b in v {
        match &mut b.b {
            B::Image(target, _) => {
                *n = *n % 3 + 1;
                *target = format!("{}/{n}.png", dir.display());
                found.push((target.clone(), format!("{n}x1")));
            }
            B::Sec(_, _, v) | B::Parent(_, v) | B::AdmonBlock(_, v) => images(v, dir, n, found),
            B::List(_, items) => items.iter_mut().for_each(|i| {
                images(&mut i.attached, dir, n, found);
                images(&mut i.nested, dir, n, found);
            }),
            B::DList(items) => items.iter_mut().for_each(|i| {
                images(&mut i.attached, dir, n, found);
                images(&mut i.nested, dir, n, found);
            }),
            _ => {}
        }
    }
}

/// A PNG, `w` pixels wide and one high
pub fn png(w: u8) -> Vec<u8> {
    fn crc(b: &[u8]) -> [u8; 4] {
        let mut c = !0u32;
        for x in b {
            c ^= *x as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
        }
        (!c).to_be_bytes()
    }
    fn chunk(out: &mut Vec<u8>, name: &[u8], data: &[u8]) {
        out.extend((data.len() as u32).to_be_bytes());
        let body = [name, data].concat();
        out.extend(&body);
        out.extend(crc(&body));
    }
    let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
    chunk(&mut out, b"IHDR", &[0, 0, 0, w, 0, 0, 0, 1, 8, 0, 0, 0, 0]);
    let raw = vec![0u8; w as usize + 1];
    let (mut a, mut b) = (1u32, 0u32);
    for x in &raw {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    let n = raw.len() as u16;
    let mut z = vec![0x78, 0x01, 1];
    z.extend(n.to_le_bytes());
    z.extend((!n).to_le_bytes());
    z.extend(&raw);
    z.extend(((b << 16) | a).to_be_bytes());
    chunk(&mut out, b"IDAT", &z);
    chunk(&mut out, b"IEND", &[]);
    out
}

fn check(cx: &mut Cx, steps: usize, title: Option<Inls>, mut doc: Vec<Blk>) {
    let mut want = Want::default();
    let (mut n, mut found) = (0, vec![]);
    images(&mut doc, &cx.scratch, &mut n, &mut found);
    want.images = found;
    let mut src = String::new();
    if let Some(t) = &title {
        want.title(t);
        src += &format!("= {}\n\n", inl_src(t));
    }
    src += &source(&doc);
    want.blocks(&doc, "Normal");
    let want = want.text();
    let out = cx.scratch.join("out.docx");
    // the same wherever it runs
    let shown = src.replace(&cx.scratch.display().to_string(), "DIR");
    cx.check(steps, &shown, |o| {
        o.ran();
        let got = docx::read(&docx::parts(&sut::parse(&src)?, &out)?)?;
        o.saw(&got.replace("DIR", ""));
        same("the document differs", &want, &got)
    });
}

pub fn go(cx: &mut Cx, steps: usize, make: impl FnOnce(&mut Words) -> Vec<Blk>) {
    if cx.mine() {
        let doc = make(&mut Words::default());
        check(cx, steps, None, doc);
    }
}

fn ok_seq(v: &[usize]) -> bool {
    v.windows(2).all(|p| !(is_list(p[0]) && is_list(p[1])))
}

fn titled(k: usize, w: &mut Words) -> Blk {
    let b = kind(k, w);
    match k {
        16..=19 => b,
        _ => b.with(None, None, Some(&w.s())),
    }
}

const TEXTS: [&str; 16] = [
    "a < b", "a & b", "a > b", "\"a\"", "&lt;", "é 😀 漢", "]]>", "a  b", "<w:t>", "x\ty", "100%", "a/b\\c", "{x}", "$1 ${y}", "a=b", "<!-- x -->",
];

pub fn run(cx: &mut Cx) {
    for n in 1..=3u8 {
        let _ = std::fs::write(cx.scratch.join(format!("{n}.png")), png(n));
    }
    cx.space("sequences of blocks");
    seqs(KINDS, 0..=cx.tier.pick(2, 3), |v| {
        if ok_seq(v) {
            go(cx, v.len(), |w| v.iter().map(|&k| kind(k, w)).collect());
            go(cx, v.len(), |w| v.iter().map(|&k| titled(k, w)).collect());
        }
    });
    cx.space("blocks inside of blocks");
    for c in 0..CONTAINERS {
        seqs(KINDS, 0..=2, |v| {
            if ok_seq(v) && v.iter().all(|&k| delim_of(k) != container_delim(c)) {
                go(cx, v.len() + 2, |w| {
                    let inner = v.iter().map(|&k| titled(k, w)).collect();
                    vec![container(c, inner).with(None, None, Some(&w.s())), para(&w.s())]
                });
            }
        });
    }
    cx.space("blocks in blocks in blocks");
    for a in 0..CONTAINERS {
        for b in 0..CONTAINERS {
            for k in 0..KINDS {
                let d = [container_delim(a), container_delim(b)];
                if d[0] != d[1] && !d.contains(&delim_of(k)) {
                    go(cx, 5, |w| {
                        let inner = container(b, vec![titled(k, w), para(&w.s())]);
                        vec![container(a, vec![inner, para(&w.s())]), para(&w.s())]
                    });
                }
            }
        }
    }
    cx.space("blocks attached to list items");
    for m in 0..3 {
        seqs(KINDS, 1..=2, |v| {
            if v.iter().any(|&k| is_list(k) || k == 18 || k == 19) {
                return;
            }
            for last in [false, true] {
                go(cx, v.len() + 2, |w| {
                    let attached: Vec<Blk> = v.iter().map(|&k| titled(k, w)).collect();
                    let list = match m {
                        2 => {
                            let one = DItem { term: w.w(), principal: Some(w.w()), attached, nested: vec![] };
                            let two = DItem { term: w.w(), principal: Some(w.w()), attached: vec![], nested: vec![] };
                            B::DList(if last { vec![two, one] } else { vec![one, two] })
                        }
                        _ => {
                            let one = Item { principal: w.w(), attached, nested: vec![] };
                            let two = Item { principal: w.w(), ..Item::default() };
                            B::List(["*", "."][m].into(), if last { vec![two, one] } else { vec![one, two] })
                        }
                    };
                    vec![list.into(), para(&w.s())]
                });
            }
        });
    }
    cx.space("lists in blocks in list items");
    for m in 0..2 {
        for c in 0..CONTAINERS {
            for k in [2, 10, 11, 22, 23] {
                go(cx, 5, |w| {
                    let one = Item { principal: w.w(), attached: vec![container(c, vec![kind(k, w)])], nested: vec![] };
                    let two = Item { principal: w.w(), ..Item::default() };
                    vec![B::List(["*", "."][m].into(), vec![one, two]).into(), para(&w.s()), kind(11, w)]
                });
            }
        }
    }
    cx.space("lists in lists");
    seqs(MARKERS.len(), 1..=cx.tier.pick(4, 6), |v| {
        go(cx, v.len(), |w| {
            let lines: Vec<_> = v.iter().map(|&m| line(MARKERS[m], w, false)).collect();
            vec![lists(&lines), para(&w.s()), kind(2, w), para(&w.s()), kind(11, w)]
        });
    });
    cx.space("sections");
    for l in 1..=4 {
        for k in 0..KINDS {
            for j in [0, 2, 11, 17] {
                go(cx, 4, |w| {
                    let mut doc = vec![para(&w.s())];
                    doc.push(B::Sec(1, w.w(), vec![kind(j, w)]).into());
                    let mut inner: Blk = B::Sec(l, w.w(), vec![titled(k, w), para(&w.s())]).into();
                    for up in (1..l).rev() {
                        inner = B::Sec(up, w.w(), vec![inner]).into();
                    }
                    doc.push(inner);
                    doc
                });
            }
        }
    }
    cx.space("sections with or without anything in them");
    seqs(8, 1..=cx.tier.pick(5, 6), |v| {
        if v[0] > 1 || v.windows(2).any(|p| p[1] / 2 > p[0] / 2 + 1) {
            return;
        }
        go(cx, v.len(), |w| {
            let flat: Vec<_> = v.iter().map(|&s| (s / 2 + 1, w.w(), if s % 2 == 0 { vec![] } else { vec![para(&w.s())] })).collect();
            nest(&flat)
        });
    });
    cx.space("many blocks attached to list items");
    for n in 3..=cx.tier.pick(6, 12) {
        for m in 0..3 {
            for k in [0, 1, 2, 4, 5, 6] {
                if is_list(k) {
                    continue;
                }
                go(cx, n + 2, |w| {
                    let attached: Vec<Blk> = (0..n).map(|i| if i % 2 == 0 { para(&w.s()) } else { titled(k, w) }).collect();
                    let list = match m {
                        2 => B::DList(vec![DItem { term: w.w(), principal: Some(w.w()), attached, nested: vec![] }]),
                        _ => B::List(["*", "."][m].into(), vec![Item { principal: w.w(), attached, nested: vec![] }]),
                    };
                    vec![list.into(), para(&w.s())]
                });
            }
        }
    }
    cx.space("verses, line by line");
    for a in 0..ATOMS {
        for b in 0..ATOMS {
            if a != 18 && b != 18 {
                for n in 0..2 {
                    go(cx, 3, |w| verse(a, b, n, w));
                }
            }
        }
    }
    cx.space("many blocks");
    for n in [3, 9, 10, 11, 40, cx.tier.pick(100, 400)] {
        for k in 0..KINDS {
            go(cx, n, |w| (0..n).flat_map(|_| [kind(k, w), para(&w.s())]).collect());
        }
        for (j, k) in [(2, 11), (11, 2), (10, 11), (16, 17)] {
            go(cx, n, |w| (0..n).flat_map(|_| [kind(j, w), para(&w.s()), kind(k, w), para(&w.s())]).collect());
        }
    }
    cx.space("quotes and verses, and who said so");
    for by in ["", "A", "A,B", "A B,C: d", "é & <b>,\"q & r\"", "\"A, b\"", "\"A, b\",\"C, d\"", "\"A\",C"] {
        for kind in 0..3 {
            for place in 0..5 {
                go(cx, 3, |w| {
                    let mut b: Blk = match kind {
                        0 => B::Parent(Par::Quote, vec![para(&w.s()), para(&w.s())]),
                        1 => B::Verse(vec![w.w(), w.w()]),
                        _ => B::QuotePara(w.w(), None, None),
                    }
                    .into();
                    let (a, c) = match by.strip_prefix('"').and_then(|b| b.split_once('"')) {
                        Some((a, c)) => (a, c.strip_prefix(',')),
                        None => by.split_once(',').map(|(a, c)| (a, Some(c))).unwrap_or((by, None)),
                    };
                    let c = c.map(|c| c.trim_matches('"'));
                    let style = if kind == 1 { "verse" } else { "quote" };
                    if !a.is_empty() {
                        match &mut b.b {
                            B::QuotePara(_, x, y) => {
                                *x = Some(a.into());
                                *y = c.map(|c| c.into());
                                b.pre = Some(format!("[{style},{by}]\n"));
                            }
                            _ => {
                                b.attrs.push(("attribution".into(), a.into()));
                                b.attrs.extend(c.map(|c| ("citation".into(), c.into())));
                                b.pre = Some(format!("[{style},{by}]\n"));
                            }
                        }
                    }
                    let b = match place {
                        0 => b,
                        1 => B::List("*".into(), vec![Item { principal: w.w(), attached: vec![b], nested: vec![] }]).into(),
                        2 => container(0, vec![b, para(&w.s())]),
                        3 => B::Sec(2, w.w(), vec![b]).into(),
                        _ => B::DList(vec![DItem { term: w.w(), principal: Some(w.w()), attached: vec![b], nested: vec![] }]).into(),
                    };
                    let b = if place == 3 { B::Sec(1, w.w(), vec![b]).into() } else { b };
                    let end = if place == 3 { vec![] } else { vec![para(&w.s())] };
                    [vec![b], end].concat()
                });
            }
        }
    }
    cx.space("titles of documents");
    for a in 0..ATOMS {
        for b in 0..ATOMS {
            if a == 18 || b == 18 || !cx.mine() {
                continue;
            }
            let w = &mut Words::default();
            let title = [w.w(), t(" "), atom(a, w), t(" "), atom(b, w)].concat();
            let doc = vec![kind(a % KINDS, w)];
            check(cx, 2, Some(title), doc);
        }
    }
    cx.space("formatting");
    for p in 0..SPOTS {
        seqs(ATOMS, 1..=2, |v| {
            if one_line(p) && v.contains(&18) {
                return;
            }
            for sep in 0..SEPS.len() {
                if one_line(p) && sep == 1 {
                    continue;
                }
                go(cx, v.len(), |w| {
                    let mut i = w.w();
                    for &a in v {
                        i.extend(t(SEPS[sep]));
                        i.extend(atom(a, w));
                    }
                    i.extend(t(" "));
                    i.extend(w.w());
                    spot(p, i, w)
                });
            }
        });
    }
    cx.space("formatting inside of formatting");
    seqs(6, 1..=cx.tier.pick(3, 4), |v| {
        if v.iter().enumerate().any(|(i, k)| v[..i].contains(k)) {
            return;
        }
        for kind in 0..6 {
            go(cx, v.len(), |w| {
                let mut i = match kind {
                    3 => vec![I::Bare(format!("https://{}.org", w.0))],
                    4 => vec![I::Link(format!("https://{}.org", w.0), vec![])],
                    5 => vec![I::Xref("nowhere".into(), vec![])],
                    _ => w.w(),
                };
                for &k in v.iter().rev() {
                    i = [w.w(), t(" "), vec![I::S(Sp::ALL[k], false, vec![], i)], t(" "), w.w()].concat();
                }
                let i = match kind {
                    0 | 3.. => i,
                    1 => [w.w(), t(" "), vec![I::Link("https://x.org".into(), i)], w.w()].concat(),
                    _ => [w.w(), vec![I::Fn(i)], t(" "), w.w()].concat(),
                };
                vec![B::Para(i).into(), para(&w.s())]
            });
        }
    });
    cx.space("line breaks");
    for p in 0..8 {
        for a in 0..ATOMS {
            for b in 0..ATOMS {
                go(cx, 3, |w| {
                    let i = [w.w(), t(" "), atom(a, w), vec![I::Br], atom(b, w), t(" "), w.w(), vec![I::Br], w.w()].concat();
                    spot(p, i, w)
                });
            }
        }
    }
    cx.space("line breaks in formatting");
    for p in 0..8 {
        for a in [0, 1, 2, 3, 4, 5, 6, 17, 19] {
            for k in 0..10 {
                if a == k + 1 || (k == 3 && a == 17) || (k == 9 && a < 3) || (k == 7 && a == 2) || (k > 5 && a == 17) {
                    continue;
                }
                go(cx, 3, |w| {
                    let inner = [w.w(), vec![I::Br], w.w(), t(" "), atom(a, w), vec![I::Br], atom(a, w), t(" "), w.w()].concat();
                    let i = match k {
                        6 => vec![I::Link("https://x.org".into(), inner)],
                        7 => vec![I::S(Sp::ALL[1], false, vec![], [w.w(), t(" "), vec![I::Link("https://x.org".into(), inner)]].concat())],
                        8 => vec![I::Fn(inner)],
                        9 => vec![I::S(Sp::ALL[0], false, vec![], vec![I::S(Sp::ALL[1], false, vec![], inner)])],
                        k => vec![I::S(Sp::ALL[k], false, vec![], inner)],
                    };
                    spot(p, [w.w(), t(" "), i, t(" "), w.w()].concat(), w)
                });
            }
        }
    }
    cx.space("blanks at the ends of lines");
    // definitions keep the blank as well as the end of the line: wider, but still a blank
    for p in [0, 1, 2, 4, 5, 6, 7] {
        for ends in [" \n", "  \n", "\t\n", " \t \n"] {
            for a in 0..ATOMS {
                go(cx, 2, |w| {
                    let end = || vec![I::R(ends.into(), "\n".into())];
                    spot(p, [w.w(), end(), atom(a, w), t(" "), w.w(), end(), w.w()].concat(), w)
                });
            }
        }
    }
    cx.space("tables of any size");
    for cols in (1..=12).chain([26, 40, 100]) {
        for rows in (1..=4).chain([9, 10, 11]) {
            for last in [1, cols / 2, cols] {
                for place in 0..4 {
                    if last == 0 || (place > 0 && rows > 3) {
                        continue;
                    }
                    go(cx, 3, |w| {
                        let size = |r| if r + 1 == rows { last } else { cols };
                        let cells = (0..rows).map(|r| (0..size(r)).map(|_| w.w()).collect()).collect();
                        let table: Blk = B::Table { cols: Some(cols.to_string()), ncols: cols, rows: cells, same_line: false, header: false }.into();
                        let b = match place {
                            0 => table,
                            1 => container(0, vec![table]),
                            2 => B::List("*".into(), vec![Item { principal: w.w(), attached: vec![table], nested: vec![] }]).into(),
                            _ => B::DList(vec![DItem { term: w.w(), principal: Some(w.w()), attached: vec![table], nested: vec![] }]).into(),
                        };
                        vec![b, para(&w.s())]
                    });
                }
            }
        }
    }
    cx.space("any text");
    seqs(TEXTS.len(), 1..=2, |v| {
        let text: String = v.iter().map(|&i| TEXTS[i]).collect::<Vec<_>>().join("");
        go(cx, v.len(), |w| {
            let lines = vec![text.clone(), w.s(), format!("  {text}")];
            vec![
                B::Leaf(Leaf::Listing, lines.clone()).into(),
                B::Leaf(Leaf::Literal, lines.clone()).into(),
                B::Source("xml".into(), lines).into(),
            ]
        });
    });
}
