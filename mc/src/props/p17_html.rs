//! The HTML has each block as the element for it, nested as in the document, and is well formed.
use super::p08_spans::{atom, one_line, span, spot, verse, ATOMS, SPOTS};
use super::p09_text::BETWEEN;
use super::p23_symbols::REFS;
use super::*;
use crate::engine::*;
use crate::html::{self, Ev};
use crate::sut;

/// A whole page: one head with the title as text, one body with the blocks.
fn page(a: &asciidocr::graph::asg::Asg) -> Result<(String, String), String> {
    let text = sut::html(a)?;
    let evs = html::read(&text)?;
    html::escaped(&text).map_err(|e| format!("{e}\n{text}"))?;
    html::balanced(&evs).map_err(|e| format!("{e}\n{text}"))?;
    let find = |f: &dyn Fn(&Ev) -> bool| evs.iter().position(f);
    let open = |n: &str| find(&|e| matches!(e, Ev::Open(m, _) if m == n));
    let close = |n: &str| find(&|e| matches!(e, Ev::Close(m) if m == n));
    let order: Option<Vec<usize>> =
        [open("html"), open("head"), open("title"), close("title"), close("head"), open("body"), close("body"), close("html")].into_iter().collect();
    let Some(order) = order else { return Err(format!("not a page\n{text}")) };
    if !order.is_sorted() || order[0] != evs.iter().position(|e| matches!(e, Ev::Open(..))).unwrap() {
        return Err(format!("not a page\n{text}"));
    }
    let mut title = String::new();
    for e in &evs[order[2] + 1..order[3]] {
        match e {
            Ev::Text(s) => title += &crate::canon::decode_entities(s),
            e => return Err(format!("{e:?} in the title\n{text}")),
        }
    }
    Ok((title.split_whitespace().collect::<Vec<_>>().join(" "), html::canon(html::body(&evs))))
}

fn check(cx: &mut Cx, steps: usize, title: Option<&Inls>, doc: &[Blk]) {
    let head = title.map(|t| format!("= {}\n\n", inl_src(t))).unwrap_or_default();
    let src = head + &source(doc);
    cx.check(steps, &src, |o| {
        o.ran();
        let (t, body) = page(&sut::parse(&src)?)?;
        o.saw(&body);
        let want = sut::html_want(&html_all(doc));
        same("the html differs", &want, &body)?;
        if title.is_none() {
            // what the document has ahead of its blocks is not in the page
            o.ran();
            let src = format!("= T\n:tag: a\n:header: b\n:block: c\n\n{src}");
            let (t, body) = page(&sut::parse(&src)?)?;
            same("the html of a document with a title differs", &want, &body)?;
            same("the title differs", "T", &t)?;
        }
        same("the title differs", &title.map(|t| inl_text(t)).unwrap_or_default(), &t)
    });
}

fn go(cx: &mut Cx, steps: usize, make: impl FnOnce(&mut Words) -> Vec<Blk>) {
    if cx.mine() {
        let doc = make(&mut Words::default());
        check(cx, steps, None, &doc);
    }
}

fn ok_seq(v: &[usize]) -> bool {
    v.windows(2).all(|p| !(is_list(p[0]) && is_list(p[1])))
}

/// With an id, a role and a title, as far as the kind has them in HTML
fn dressed(k: usize, n: usize, w: &mut Words) -> Blk {
    let b = kind(k, w);
    match k {
        18 | 19 => b,
        16 | 17 => b,
        13 => b.with(None, None, Some(&w.s())),
        _ => b.with(Some(&format!("i{n}")), Some(&format!("r{n} s{n}")), Some(&w.s())),
    }
}

/// Characters that mean something in HTML, and others
const CHARS: [&str; 8] = ["<", ">", "&", "\"", "'", "a", "é", "="];

pub fn run(cx: &mut Cx) {
    cx.space("sequences of blocks");
    seqs(KINDS, 1..=cx.tier.pick(2, 3), |v| {
        if ok_seq(v) {
            go(cx, v.len(), |w| v.iter().map(|&k| kind(k, w)).collect());
            if v.len() < 3 {
                go(cx, v.len(), |w| v.iter().enumerate().map(|(n, &k)| dressed(k, n, w)).collect());
            }
        }
    });
    cx.space("blocks inside of blocks");
    for c in 0..CONTAINERS {
        seqs(KINDS, 0..=2, |v| {
            if ok_seq(v) && v.iter().all(|&k| delim_of(k) != container_delim(c)) {
                go(cx, v.len() + 2, |w| {
                    let inner = v.iter().enumerate().map(|(n, &k)| dressed(k, n, w)).collect();
                    vec![container(c, inner).with(Some("out"), Some("side"), Some(&w.s())), para(&w.s())]
                });
            }
        });
    }
    cx.space("blocks in blocks in blocks");
    for depth in 2..=cx.tier.pick(3, 4) {
        seqs(CONTAINERS, depth..=depth, |v| {
            for k in 0..KINDS {
                if depth > 2 && cx.tier.pick(k > 6, false) {
                    continue;
                }
                let delims: Vec<&str> = v.iter().map(|&c| container_delim(c)).collect();
                if delims.iter().enumerate().any(|(i, d)| delims[..i].contains(d) || delim_of(k) == *d) {
                    continue;
                }
                go(cx, depth + 1, |w| {
                    let mut b = kind(k, w);
                    for (i, &c) in v.iter().enumerate() {
                        let (before, after) = (para(&w.s()), para(&w.s()));
                        b = container(c, vec![before, b, after]);
                        if i % 2 == 1 {
                            b = b.with(Some(&format!("d{i}")), None, Some(&w.s()));
                        }
                    }
                    vec![b, para(&w.s())]
                });
            }
        });
    }
    cx.space("blocks attached to list items");
    for list in 0..3 {
        seqs(KINDS + CONTAINERS, 1..=2, |v| {
            if v.iter().any(|&k| is_list(k) || k == 18 || k == 19) {
                return;
            }
            go(cx, v.len() + 2, |w| {
                let attached: Vec<Blk> = v
                    .iter()
                    .enumerate()
                    .map(|(n, &k)| if k < KINDS { dressed(k, n, w) } else { container(k - KINDS, vec![para(&w.s()), kind(2, w)]) })
                    .collect();
                let b = match list {
                    2 => B::DList(vec![
                        DItem { term: w.w(), principal: Some(w.w()), attached, nested: vec![] },
                        DItem { term: w.w(), principal: Some(w.w()), attached: vec![], nested: vec![] },
                    ]),
                    l => B::List(
                        ["*", "."][l].into(),
                        vec![Item { principal: w.w(), attached, nested: vec![] }, Item { principal: w.w(), ..Item::default() }],
                    ),
                };
                vec![b.into(), para(&w.s())]
            });
        });
    }
    cx.space("lists in lists");
    seqs(3, 2..=cx.tier.pick(3, 3), |v| {
        // each marker once, one inside of the other
        if v.iter().enumerate().any(|(i, m)| v[..i].contains(m)) {
            return;
        }
        for shape in 0..1 << (v.len() * 2) {
            go(cx, v.len() * 2, |w| {
                let mut nested: Vec<Blk> = vec![];
                for (i, &m) in v.iter().enumerate() {
                    let (before, after) = (shape >> (2 * i) & 1 == 1, shape >> (2 * i + 1) & 1 == 1);
                    let n = std::mem::take(&mut nested);
                    nested = vec![match m {
                        2 => {
                            let d = |n: Vec<Blk>, w: &mut Words| DItem { term: w.w(), principal: Some(w.w()), attached: vec![], nested: n };
                            let mut items = vec![];
                            if before {
                                items.push(d(vec![], w));
                            }
                            items.push(d(n, w));
                            if after {
                                items.push(d(vec![], w));
                            }
                            B::DList(items).into()
                        }
                        m => {
                            let it = |n: Vec<Blk>, w: &mut Words| Item { principal: w.w(), attached: vec![], nested: n };
                            let mut items = vec![];
                            if before {
                                items.push(it(vec![], w));
                            }
                            items.push(it(n, w));
                            if after {
                                items.push(it(vec![], w));
                            }
                            B::List(["*", "."][m].into(), items).into()
                        }
                    }];
                }
                nested.push(para(&w.s()));
                nested
            });
        }
    });
    cx.space("sections");
    seqs(4, 1..=cx.tier.pick(4, 6), |v| {
        // each at most one deeper than the one before
        if v[0] != 0 || v.windows(2).any(|p| p[1] > p[0] + 1) {
            return;
        }
        go(cx, v.len(), |w| {
            fn build(v: &[usize], i: &mut usize, l: usize, w: &mut Words) -> Vec<Blk> {
                let mut out = vec![];
                while *i < v.len() && v[*i] == l {
                    let n = *i;
                    *i += 1;
                    let mut inner = vec![dressed(n % KINDS, 10 + n, w), para(&w.s())];
                    let title = w.w();
                    inner.extend(build(v, i, l + 1, w));
                    let b: Blk = B::Sec(l + 1, title, inner).into();
                    out.push(if n % 2 == 0 { b.with(Some(&format!("s{n}")), Some("r"), None) } else { b });
                }
                out
            }
            build(v, &mut 0, 0, w)
        });
    });
    cx.space("admonitions of any block");
    for k in 0..KINDS {
        if delim_of(k) == "====" || !kind(k, &mut Words::default()).style().is_empty() || [7, 16, 17, 18, 19, 26].contains(&k) {
            continue;
        }
        for name in ["note", "tip", "important", "caution", "warning"] {
            if cx.mine() {
                let w = &mut Words::default();
                let b = kind(k, w);
                let src = format!("[{}]\n{}\n\nafter\n", name.to_uppercase(), source(&[b.clone()]).trim_end());
                let doc = [B::AdmonBlock(name, vec![b]).into(), para("after")];
                cx.check(2, &src, |o| {
                    o.ran();
                    same("the html differs", &sut::html_want(&html_all(&doc)), &page(&sut::parse(&src)?)?.1)
                });
            }
        }
    }
    cx.space("titles of documents");
    for a in 0..ATOMS {
        for b in 0..ATOMS {
            if a == 18 || b == 18 {
                continue; // more than one line
            }
            if cx.mine() {
                let w = &mut Words::default();
                let title = [w.w(), t(" "), atom(a, w), t(" "), atom(b, w)].concat();
                let doc = [para(&w.s())];
                check(cx, 2, Some(&title), &doc);
            }
        }
    }
    cx.space("characters that mean something in html");
    seqs(CHARS.len(), 1..=cx.tier.pick(2, 3), |v| {
        let s: String = v.iter().map(|&c| CHARS[c]).collect();
        let has = |x: &str| s.contains(x);
        if !has("'") && !has("<<") && !has("=") {
            for p in 0..SPOTS {
                go(cx, v.len(), |w| spot(p, t(&format!("x{s}y")), w));
            }
            if cx.mine() {
                check(cx, v.len(), Some(&t(&format!("x{s}y"))), &[para("p")]);
            }
        }
        // each of these is in an attribute, of an element or of the block
        for slot in 0..9 {
            // quotes end a quoted value
            if slot == 1 && has("\"") || slot >= 2 && (has("=") || s.starts_with('"')) {
                continue;
            }
            go(cx, v.len(), |w| {
                let x = format!("x{s}y");
                vec![
                    match slot {
                        7 | 8 => {
                            let (mut b, style): (Blk, _) = match slot {
                                7 => (B::Verse(vec![w.w(), w.w()]).into(), "verse"),
                                _ => (B::Parent(Par::Quote, vec![para(&w.s()), para(&w.s())]).into(), "quote"),
                            };
                            b.pre = Some(format!("[{style},Me{x},It{x}]\n"));
                            b.attrs = vec![("attribution".into(), format!("Me{x}")), ("citation".into(), format!("It{x}"))];
                            b
                        }
                        0 => para(&w.s()).with(Some(&x), None, None),
                        1 => kind(2, w).with(None, Some(&x), None),
                        2 => B::Source(x, vec![w.s()]).into(),
                        3 => B::Image(x, w.s()).into(),
                        4 => B::Image(w.s(), x).into(),
                        5 => B::QuotePara(w.w(), Some(x), None).into(),
                        _ => B::QuotePara(w.w(), Some(w.s()), Some(x)).into(),
                    },
                    para(&w.s()),
                ]
            });
        }
        if s != "'" {
            go(cx, v.len(), |w| vec![B::Leaf(Leaf::Listing, vec![s.clone(), format!("x{s}")]).into(), para(&w.s())]);
            go(cx, v.len(), |w| vec![B::Leaf(Leaf::Literal, vec![s.clone(), format!("x{s}")]).into(), para(&w.s())]);
        }
    });
    cx.space("who said so, and what the block has besides");
    for kind in 0..3 {
        for by in 0..3 {
            for also in 0..8 {
                for place in 0..4 {
                    go(cx, 3, |w| {
                        let mut b: Blk = match kind {
                            0 => B::Parent(Par::Quote, vec![para(&w.s()), para(&w.s())]),
                            1 => B::Verse(vec![w.w(), w.w()]),
                            _ => B::QuotePara(w.w(), (by > 0).then(|| "Me".into()), (by > 1).then(|| "It".into())),
                        }
                        .into();
                        if kind < 2 && by > 0 {
                            let ahead = ["[[i]]\n", "[role=r]\n", ".Ti\n"].iter().enumerate().filter(|(n, _)| also & (1 << n) != 0);
                            let ahead: String = ahead.map(|(_, s)| *s).collect();
                            b.pre = Some(format!("{ahead}[{},Me{}]\n", ["quote", "verse"][kind], if by > 1 { ",It" } else { "" }));
                            b.attrs = [("attribution", "Me"), ("citation", "It")][..by].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                        }
                        let b = b.with((also & 1 != 0).then_some("i"), (also & 2 != 0).then_some("r"), (also & 4 != 0).then_some("Ti"));
                        let b = match place {
                            0 => b,
                            1 => container(0, vec![b]),
                            2 => B::List("*".into(), vec![Item { principal: w.w(), attached: vec![b], nested: vec![] }]).into(),
                            _ => B::DList(vec![DItem { term: w.w(), principal: Some(w.w()), attached: vec![b], nested: vec![] }]).into(),
                        };
                        vec![b, para(&w.s())]
                    });
                }
            }
        }
    }
    cx.space("inline elements everywhere");
    for p in 0..SPOTS {
        for a in 0..ATOMS {
            for b in 0..ATOMS {
                if one_line(p) && (a == 18 || b == 18) {
                    continue;
                }
                if cx.tier.pick(p > 2 && b > 0, false) {
                    continue;
                }
                go(cx, 2, |w| {
                    let i = [w.w(), t(" "), atom(a, w), t(" "), atom(b, w)].concat();
                    spot(p, i, w)
                });
            }
        }
    }
    cx.space("references everywhere");
    for p in 0..SPOTS {
        for (s, means) in REFS {
            for f in 0..4 {
                go(cx, 2, |w| {
                    let r = || vec![I::R(s.into(), means.into())];
                    let i = [w.w(), t(" "), r(), t(" "), vec![span(f, false, [w.w(), t(" "), r(), w.w()].concat())]].concat();
                    spot(p, i, w)
                });
            }
        }
    }
    cx.space("verses, line by line");
    for a in 0..ATOMS {
        for b in 0..ATOMS {
            if a != 18 && b != 18 {
                for n in 0..2 {
                    go(cx, 3, |w| verse(a, b, n, w));
                }
            }
        }
    }
    cx.space("what looks like html is text, next to any markup");
    const MARKUP: [&str; 18] =
        ["<b>", "w", " ", "*", "_", "`", "#", "^", "[.r]#", "&lt;", "=>", "--", "...", "'", "footnote:[", "https://x.org[", "]", "\n"];
    const AROUND: [(&str, &str); 6] = [("", ""), ("* x ", ""), ("t:: x ", ""), (".x ", "\nx"), ("|===\n|x ", "\n|===\n"), ("NOTE: ", "")];
    seqs(MARKUP.len(), 1..=cx.tier.pick(3, 4), |v| {
        for (n, (a, b)) in AROUND.iter().enumerate() {
            if !v.contains(&0) || v.len() > 3 && n > 0 || n == 4 && v.contains(&17) || !cx.mine() {
                continue;
            }
            let s = format!("{a}{}{b}\n", v.iter().map(|&i| MARKUP[i]).collect::<String>());
            cx.check(v.len(), &s, |o| {
                o.ran();
                let Ok(a) = sut::parse(&s) else {
                    o.hit("rejected");
                    return Ok(());
                };
                o.hit("accepted");
                let body = page(&a)?.1;
                o.saw(&body);
                let shown: usize = body.lines().filter(|l| l.starts_with('"')).map(|l| l.matches("<b>").count()).sum();
                match (shown, s.matches("<b>").count()) {
                    (a, b) if a == b => Ok(()),
                    _ => Err(format!("not what was written:\n{body}")),
                }
            });
        }
    });
    cx.space("pages are well formed, whatever the markup");
    seqs(BETWEEN.len(), 1..=cx.tier.pick(2, 3), |v| {
        for lead in [true, false] {
            let mut s = if lead { "w0".to_string() } else { String::new() };
            for (i, &k) in v.iter().enumerate() {
                s += BETWEEN[k];
                s += &format!("w{}", i + 1);
            }
            if s.contains("++++") || s.contains("pass:") || !cx.mine() {
                continue;
            }
            cx.check(v.len(), &s, |o| {
                o.ran();
                match sut::parse(&s) {
                    Ok(a) => {
                        o.hit("accepted");
                        o.saw(&page(&a)?.1);
                    }
                    Err(_) => o.hit("rejected"),
                }
                Ok(())
            });
        }
    });
}
