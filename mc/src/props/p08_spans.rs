//! Formatting marks that pair up enclose exactly what is between them; those that do not are text.
use super::p03_blocks::holds_src;
use super::*;
use crate::engine::*;
use crate::sut;

pub fn span(k: usize, un: bool, v: Inls) -> I {
    I::S(Sp::ALL[k], un, vec![], v)
}

/// The things that can be next to each other in a line of text.
pub const ATOMS: usize = 21;

pub fn atom(k: usize, w: &mut Words) -> Inls {
    match k {
        0 => w.w(),
        1..=6 => vec![span(k - 1, false, w.w())],
        7..=10 => vec![span(k - 7, true, w.w())],
        11 => {
            // in the middle of a word
            let (a, b, c) = (w.w(), w.w(), w.w());
            [a, vec![span(0, true, b)], c].concat()
        }
        12 => {
            let (a, b) = (w.s(), w.s());
            vec![span(1, false, t(&format!("{a} {b}")))]
        }
        13 => vec![I::S(Sp::Mark, false, vec!["big".into()], w.w())],
        14 => vec![I::S(Sp::Strong, false, vec!["a".into(), "b".into()], w.w())],
        15 => vec![I::S(Sp::Em, true, vec!["c".into()], w.w())],
        16 => vec![I::Link(format!("https://{}.org/x", w.0), w.w())],
        17 => vec![I::Fn(w.w())],
        18 => {
            let (a, b) = (w.s(), w.s());
            vec![span(0, false, vec![I::T(format!("{a}\n{b}"))])]
        }
        19 => vec![I::R("&lt;".into(), "<".into())],
        20 => {
            let (a, b, c) = (w.w(), w.w(), w.s());
            vec![span(0, false, [a, t(" "), vec![span(1, false, b)], t(&format!(" {c}"))].concat())]
        }
        _ => unreachable!(),
    }
}

pub const SEPS: [&str; 4] = [" ", "\n", ", ", ". "];

/// Where inline text can be. No line breaks where the text has to be on one line.
pub const SPOTS: usize = 19;
pub fn spot(p: usize, i: Inls, w: &mut Words) -> Vec<Blk> {
    let b = match p {
        0 => B::Para(i),
        1 => B::List("*".into(), vec![Item { principal: w.w(), ..Item::default() }, Item { principal: i, ..Item::default() }]),
        2 => B::List(".".into(), vec![Item { principal: i, ..Item::default() }, Item { principal: w.w(), ..Item::default() }]),
        3 => B::DList(vec![DItem { term: w.w(), principal: Some(i), attached: vec![], nested: vec![] }]),
        4 => B::AdmonPara("note", i),
        5 => B::Parent(Par::Example, vec![B::Para(i).into()]),
        6 => B::QuotePara(i, None, None),
        7 => B::List("*".into(), vec![Item { principal: w.w(), attached: vec![B::Para(i).into()], nested: vec![] }]),
        // on one line
        8 => return vec![B::Sec(1, i, vec![para(&w.s())]).into()],
        9 => B::DList(vec![DItem { term: i, principal: Some(w.w()), attached: vec![], nested: vec![] }]),
        10 | 12..=17 => {
            // titles of blocks
            let k = [0, 0, 2, 10, 9, 1, 3, 15][p - 10];
            let mut b = kind(k, w);
            b.title = Some(i);
            return vec![b, para(&w.s())];
        }
        18 => B::Verse(vec![i]),
        11 => B::Table { cols: None, ncols: 2, rows: vec![vec![w.w(), i], vec![w.w(), w.w()]], same_line: true, header: true },
        _ => unreachable!(),
    };
    vec![b.into(), para(&w.s())]
}
/// A verse with lines that start or end with something, and one that's nothing else
pub fn verse(a: usize, b: usize, n: usize, w: &mut Words) -> Vec<Blk> {
    let mut lines = vec![[w.w(), t(" "), atom(a, w)].concat(), [atom(b, w), t(" "), w.w()].concat(), atom(a, w)];
    lines.extend((0..n).map(|_| w.w()));
    vec![B::Verse(lines).into(), para(&w.s())]
}
pub fn one_line(p: usize) -> bool {
    p >= 8
}

/// Places further down, in one thing inside of another, or with something in them.
pub const DEEP: usize = 39;
pub fn deep(p: usize, i: Inls, w: &mut Words) -> Vec<Blk> {
    fn item(principal: Inls, attached: Vec<Blk>, nested: Vec<Blk>) -> Item {
        Item { principal, attached, nested }
    }
    fn ditem(term: Inls, principal: Inls, attached: Vec<Blk>, nested: Vec<Blk>) -> DItem {
        DItem { term, principal: Some(principal), attached, nested }
    }
    let list = |m: &str, v: Vec<Item>| -> Blk { B::List(m.into(), v).into() };
    let dlist = |v: Vec<DItem>| -> Blk { B::DList(v).into() };
    let inner = |p: usize, i: Inls, w: &mut Words| -> Blk { spot(p, i, w).remove(0) };
    let b: Blk = match p {
        0 => list("*", vec![item(w.w(), vec![], vec![list(".", vec![item(i, vec![], vec![]), item(w.w(), vec![], vec![])])])]),
        1 => list(".", vec![item(w.w(), vec![], vec![list("*", vec![item(w.w(), vec![], vec![]), item(i, vec![], vec![])])]), item(w.w(), vec![], vec![])]),
        2 => list("*", vec![item(w.w(), vec![], vec![dlist(vec![ditem(w.w(), i, vec![], vec![])])])]),
        3 => dlist(vec![ditem(w.w(), w.w(), vec![], vec![list("*", vec![item(w.w(), vec![], vec![]), item(i, vec![], vec![])])])]),
        4 => dlist(vec![ditem(w.w(), w.w(), vec![B::Para(i).into()], vec![]), ditem(w.w(), w.w(), vec![], vec![])]),
        5 => list("*", vec![item(w.w(), vec![], vec![list(".", vec![item(w.w(), vec![B::Para(i).into()], vec![])])])]),
        // lists and blocks in each kind of block
        6..=10 => container(p - 6, vec![inner(1, i, w)]),
        11..=13 => container(p - 10, vec![container(4, vec![B::Para(i).into()]), para(&w.s())]),
        14 => container(0, vec![inner(3, i, w)]),
        15 => list(".", vec![item(w.w(), vec![container(2, vec![inner(2, i, w)])], vec![]), item(w.w(), vec![], vec![])]),
        16 => B::Sec(1, w.w(), vec![inner(1, i, w), B::Sec(2, w.w(), vec![para(&w.s())]).into()]).into(),
        17 => B::Sec(1, w.w(), vec![B::Sec(2, w.w(), vec![para(&w.s()), B::Para(i).into()]).into()]).into(),
        18 => list("*", vec![item(w.w(), vec![container(0, vec![para(&w.s()), B::Para(i).into()])], vec![])]),
        19 => list("*", vec![item(w.w(), vec![B::AdmonPara("tip", i).into()], vec![]), item(w.w(), vec![], vec![])]),
        // on one line
        20 => list("*", vec![item(w.w(), vec![], vec![dlist(vec![ditem(i, w.w(), vec![], vec![])])])]),
        21 => B::Sec(1, w.w(), vec![para(&w.s()), B::Sec(2, i, vec![para(&w.s())]).into()]).into(),
        22 => container(1, vec![inner(11, i, w)]),
        23 => container(0, vec![inner(9, i, w)]),
        24 => B::Table { cols: None, ncols: 3, rows: vec![vec![w.w(), w.w(), w.w()], vec![i, w.w(), w.w()], vec![w.w(), w.w(), w.w()]], same_line: true, header: true }.into(),
        25 => B::Table { cols: Some("1,1".into()), ncols: 2, rows: vec![vec![w.w(), w.w()], vec![w.w(), i]], same_line: false, header: false }.into(),
        26..=29 => {
            let mut b = kind([1, 0, 15, 9][p - 26], w);
            b.title = Some(i);
            match p {
                26 => list("*", vec![item(w.w(), vec![b], vec![]), item(w.w(), vec![], vec![])]),
                27 => container(3, vec![b]),
                28 => B::Sec(1, w.w(), vec![b]).into(),
                _ => container(0, vec![b]),
            }
        }
        // what has it has more
        30 => list("*", vec![item(i, vec![para(&w.s())], vec![list(".", vec![item(w.w(), vec![], vec![])])]), item(w.w(), vec![], vec![])]),
        31 => dlist(vec![ditem(w.w(), i, vec![para(&w.s()), kind(1, w)], vec![]), ditem(w.w(), w.w(), vec![], vec![])]),
        32 => dlist(vec![ditem(w.w(), i, vec![], vec![list("*", vec![item(w.w(), vec![], vec![]), item(w.w(), vec![], vec![])])])]),
        33 => list("<N>", vec![item(w.w(), vec![], vec![]), item(i, vec![], vec![]), item(w.w(), vec![], vec![])]),
        // on one line
        34 => dlist(vec![ditem(i, w.w(), vec![para(&w.s()), kind(1, w)], vec![]), ditem(w.w(), w.w(), vec![], vec![])]),
        35 => dlist(vec![ditem(w.w(), w.w(), vec![], vec![]), ditem(i, w.w(), vec![], vec![list(".", vec![item(w.w(), vec![], vec![])])])]),
        36 => B::Sec(1, i, vec![para(&w.s()), B::Sec(2, w.w(), vec![para(&w.s())]).into()]).into(),
        37 | 38 => {
            let mut b = match p {
                37 => list(".", vec![item(w.w(), vec![para(&w.s())], vec![list("*", vec![item(w.w(), vec![], vec![])])])]),
                _ => dlist(vec![ditem(w.w(), w.w(), vec![para(&w.s())], vec![]), ditem(w.w(), w.w(), vec![], vec![])]),
            };
            b.title = Some(i);
            b
        }
        _ => unreachable!(),
    };
    vec![b]
}
/// What comes after: in the last section, if there is one
pub fn after(mut v: Vec<Blk>, more: Vec<Blk>) -> Vec<Blk> {
    match v.last_mut() {
        Some(Blk { b: B::Sec(_, _, kids), .. }) => *kids = after(std::mem::take(kids), more),
        _ => v.extend(more),
    }
    v
}
pub fn deep_one_line(p: usize) -> bool {
    (20..30).contains(&p) || p >= 34
}

pub fn go(cx: &mut Cx, steps: usize, html: bool, doc: impl FnOnce() -> Vec<Blk>) {
    if cx.mine() {
        let doc = doc();
        let src = source(&doc);
        cx.check(steps, &src, |o| {
            holds_src(&doc, &src, o)?;
            if html {
                o.ran();
                same("the html differs", &sut::html_want(&html_all(&doc)), &sut::html_body(&sut::parse(&src)?)?)?;
            }
            Ok(())
        });
    }
}

fn join(parts: Vec<Inls>, seps: &[usize]) -> Inls {
    let mut out = vec![];
    for (i, p) in parts.into_iter().enumerate() {
        if i > 0 {
            out.push(I::T(SEPS[seps[i - 1]].into()));
        }
        out.extend(p);
    }
    out
}

/// A chain of spans, each inside of the one before, with words around according to the bits.
fn chain(kinds: &[usize], forms: usize, around: usize, w: &mut Words) -> Inls {
    let Some((&k, rest)) = kinds.split_first() else { return w.w() };
    let mut inner = vec![];
    let un = forms & 1 != 0;
    if around & 1 != 0 {
        inner.push(I::T(format!("{} ", w.s())));
    }
    inner.extend(chain(rest, forms >> 1, around >> 2, w));
    if around & 2 != 0 {
        inner.push(I::T(format!(" {}", w.s())));
    }
    vec![span(k, un, inner)]
}

/// The language's own definition: a mark that no word character precedes, then text that neither
/// starts nor ends with a space, as short as possible, then a mark that no word character follows.
fn pairs(s: &str, m: &str, name: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let m = m.chars().next().unwrap();
    let word = |i: Option<usize>| i.and_then(|i| c.get(i)).is_some_and(|c| c.is_alphanumeric());
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == m && !word(i.checked_sub(1)) && c.get(i + 1).is_some_and(|x| ![' ', '\n'].contains(x)) {
            let close = (i + 2..c.len()).find(|&j| c[j] == m && ![' ', '\n'].contains(&c[j - 1]) && !word(Some(j + 1)));
            if let Some(j) = close {
                out += &format!("⟨{name}:{}⟩", c[i + 1..j].iter().collect::<String>());
                i = j + 1;
                continue;
            }
        }
        out.push(c[i]);
        i += 1;
    }
    out
}

pub fn run(cx: &mut Cx) {
    cx.space("sequences");
    seqs(ATOMS, 1..=cx.tier.pick(3, 4), |v| {
        seqs(SEPS.len(), v.len() - 1..=v.len() - 1, |s| {
            go(cx, v.len(), false, || {
                let mut w = Words::default();
                let parts = v.iter().map(|&k| atom(k, &mut w)).collect();
                vec![B::Para(join(parts, s)).into()]
            });
        });
    });
    cx.space("pairs in every place");
    for p in 0..SPOTS {
        seqs(ATOMS, 1..=2, |v| {
            for lead in [false, true] {
                for s in 0..SEPS.len() {
                    let lines = SEPS[s] == "\n" && v.len() > 1 || v.contains(&18);
                    // a pass through a table header or a title that is on two lines is not one
                    if one_line(p) && lines || v.len() == 1 && s > 0 {
                        continue;
                    }
                    go(cx, v.len() + 1, false, || {
                        let mut w = Words::default();
                        let mut parts: Vec<Inls> = vec![];
                        if lead {
                            parts.push(w.w());
                        }
                        parts.extend(v.iter().map(|&k| atom(k, &mut w)));
                        let mut seps = vec![s; parts.len() - 1];
                        if lead && !seps.is_empty() {
                            seps[0] = 0;
                        }
                        let i = join(parts, &seps);
                        spot(p, i, &mut w)
                    });
                }
            }
        });
    }
    cx.space("spans inside of spans");
    seqs(6, 1..=cx.tier.pick(3, 4), |kinds| {
        let d: std::collections::BTreeSet<_> = kinds.iter().collect();
        // code marks keep nothing but code marks apart
        if d.len() != kinds.len() {
            return;
        }
        for forms in 0..1 << kinds.len() {
            // superscript and subscript have no doubled form
            if kinds.iter().enumerate().any(|(i, &k)| k >= 4 && forms >> i & 1 != 0) {
                continue;
            }
            for around in 0..1 << (2 * kinds.len()) {
                go(cx, kinds.len() * 2, false, || {
                    let mut w = Words::default();
                    let c = chain(kinds, forms, around, &mut w);
                    vec![B::Para([t("a "), c, t(" z")].concat()).into()]
                });
            }
        }
    });
    cx.space("in html");
    seqs(ATOMS, 1..=2, |v| {
        for p in 0..SPOTS {
            if one_line(p) && v.contains(&18) {
                continue;
            }
            go(cx, v.len() + 1, true, || {
                let mut w = Words::default();
                let parts = v.iter().map(|&k| atom(k, &mut w)).collect();
                let i = join(parts, &vec![0; v.len() - 1]);
                spot(p, i, &mut w)
            });
        }
    });
    cx.space("further down");
    for p in 0..DEEP {
        seqs(ATOMS, 1..=2, |v| {
            if deep_one_line(p) && v.contains(&18) {
                return;
            }
            go(cx, v.len() + 1, true, || {
                let mut w = Words::default();
                let parts = v.iter().map(|&k| atom(k, &mut w)).collect();
                let i = join(parts, &vec![0; v.len() - 1]);
                deep(p, i, &mut w)
            });
        });
    }
    cx.space("line breaks, passed-through text and footnotes next to anything");
    const GLUE: [&str; 7] = [" ", "", "(", ")", ", ", "\n", "-"];
    seqs(5, 1..=cx.tier.pick(3, 4), |v| {
        seqs(GLUE.len(), v.len()..=v.len(), |g| {
            for p in 0..SPOTS {
                // what is last in its place, and what first
                for ends in 0..4 {
                    let br = v.contains(&0);
                    // verses have neither line breaks nor passed-through text
                    if p == 18 && (br || v.contains(&1)) || one_line(p) && (br || g.iter().any(|&g| GLUE[g] == "\n")) || v.len() > 2 && (p > 0 || ends > 1) {
                        continue;
                    }
                    // a line break is one at the end of a line, and there has to be something on a line
                    let odd = (0..v.len()).any(|n| v[n] == 0 && (["\n", "-"].contains(&GLUE[g[n]]) || n > 0 && v[n - 1] == 0 || n + 1 < v.len() && GLUE[g[n + 1]] == "\n"))
                        || v[0] == 0 && ends & 1 == 0 || ends & 1 == 0 && ["\n", " "].contains(&GLUE[g[0]]) || ends & 2 == 2 && v.last() == Some(&0) && p > 0;
                    if odd {
                        continue;
                    }
                    go(cx, v.len(), v.len() == 1, || {
                        let mut w = Words::default();
                        let mut i = if ends & 1 == 1 { w.w() } else { vec![] };
                        for (n, &k) in v.iter().enumerate() {
                            if k != 0 {
                                i.extend(t(GLUE[g[n]]));
                            }
                            match k {
                                0 => i.push(I::Br),
                                1 => i.push(I::Raw(format!("*{}* -> <b>x</b>", w.s()))),
                                2 => i.push(I::Fn(w.w())),
                                3 => i.push(I::Img(format!("{}.png", w.s()))),
                                _ => i.extend(w.w()),
                            }
                        }
                        if ends & 2 == 0 {
                            i.extend(w.w());
                        }
                        spot(p, i, &mut w)
                    });
                }
            }
        });
    });
    cx.space("anything in anything, on the same line or the next");
    const PUT: [&str; 4] = [" ", "\n", ", ", ".\n"];
    for outer in 0..15 {
        for x in 0..21 {
            // nothing is in another of its kind, and notes are in nothing but plain formatting
            let within = match outer {
                0..=5 => vec![1 + outer],
                6..=9 => vec![1 + outer - 6],
                10 => vec![8, 9, 10],
                11 => vec![10],
                12 => vec![1, 2],
                _ => vec![],
            };
            // whether backticks are for code or quotes is a matter of which come first
            if outer == 14 && (x == 3 || x == 15) || x == 15 && within.contains(&3) {
                continue;
            }
            if within.contains(&x) || x == 17 && within.contains(&4) || x == 10 && [3, 9, 10, 11].contains(&outer) {
                continue;
            }
            for before in PUT {
                for after in PUT {
                    for ends in 0..4 {
                        for p in [0, 1, 8, 10, 14] {
                            let odd = x == 18 && (ends > 0 || before != " " || after != " ") || one_line(p) && (x == 18 || [before, after].concat().contains('\n'));
                            if odd || ends & 1 != 0 && before != " " || ends & 2 != 0 && after != " " {
                                continue;
                            }
                            go(cx, 3, before == "\n", || {
                                let w = &mut Words::default();
                                let it = match x {
                                    0 => w.w(),
                                    1..=6 => vec![span(x - 1, false, w.w())],
                                    7 => vec![I::Xref("nowhere".into(), vec![])],
                                    8 => vec![I::Bare("https://x.org/a".into())],
                                    9 => vec![I::Link("https://x.org/a".into(), w.w())],
                                    10 => vec![I::Fn(w.w())],
                                    11 => vec![I::Img("x.png".into())],
                                    12 => vec![I::Raw(format!("*{}*", w.s()))],
                                    13 => vec![I::R("&lt;".into(), "<".into())],
                                    14 => vec![I::R("->".into(), "→".into())],
                                    15 => vec![I::R("\"`".into(), "“".into()), w.w().remove(0), I::R("`\"".into(), "”".into())],
                                    16 => vec![I::R("(C)".into(), "©".into())],
                                    17 => vec![I::S(Sp::Mark, false, vec!["big".into()], w.w())],
                                    18 => vec![I::Br],
                                    // with doubled marks there may be blanks
                                    _ => {
                                        let text = if x == 19 { format!("{} ", w.s()) } else { format!(" {}", w.s()) };
                                        let kind = [1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 3, 0, 0][outer];
                                        vec![span(kind, true, t(&text))]
                                    }
                                };
                                let a = if ends & 1 == 0 { [w.w(), t(" "), w.w(), if x == 18 { vec![] } else { t(before) }].concat() } else { vec![] };
                                let b = if ends & 2 == 0 { [if x == 18 { vec![] } else { t(after) }, w.w(), t(" "), w.w()].concat() } else { vec![] };
                                let i = [a, it, b].concat();
                                let of = match outer {
                                    0..=5 => vec![span(outer, false, i)],
                                    6..=9 => vec![span(outer - 6, true, i)],
                                    10 => vec![I::Link("https://y.org".into(), i)],
                                    11 => vec![I::Fn(i)],
                                    12 => vec![span(0, false, [w.w(), t(" "), vec![span(1, false, i)]].concat())],
                                    13 => i,
                                    _ => [vec![I::R("\"`".into(), "“".into())], i, vec![I::R("`\"".into(), "”".into())]].concat(),
                                };
                                spot(p, [w.w(), t(" "), of, t(" "), w.w()].concat(), w)
                            });
                        }
                    }
                }
            }
        }
    }
    cx.space("a line break at the very end");
    for p in 0..SPOTS {
        for end in ["", "\n", "\n\n"] {
            // where what is in it is the end
            if [0, 1, 3, 4, 6, 7].contains(&p) && cx.mine() {
                let mut w = Words::default();
                let doc = spot(p, [w.w(), t(" "), atom(1, &mut w), vec![I::Br]].concat(), &mut w)[..1].to_vec();
                let src = source(&doc).replacen(" +\n", " +", 1).trim_end_matches('\n').to_string() + end;
                cx.check(1, &src, |o| holds_src(&doc, &src, o));
            }
        }
    }
    cx.space("marks that do not pair up");
    for p in 0..SPOTS {
        for m in ["*", "_", "#", "**", "__", "##", "`", "``", "^", "~"] {
            for shape in ["a Mb c", "a bM c", "a M b", "Mb c", "a Mb", "aM", "a bMc d", "M", "5 M 6 = x"] {
                for (pre, post) in [("", ""), ("*x* ", ""), ("", " _y_"), ("`x` ", " *y*")] {
                    let text = format!("{pre}{}{post}", shape.replace('M', m));
                    // a lone mark at the start of a line is a list or a delimiter; a mark between
                    // others of its kind does pair up
                    let same = pre.contains(m.chars().next().unwrap()) || post.contains(m.chars().next().unwrap());
                    if same || text.starts_with("* ") || text == "*" || text == "**" && p != 0 {
                        continue;
                    }
                    go(cx, 3, false, || {
                        let mut w = Words::default();
                        let mut i = vec![];
                        if !pre.is_empty() {
                            i.push(span(if pre.contains('*') { 0 } else { 2 }, false, t("x")));
                            i.push(I::T(" ".into()));
                        }
                        i.push(I::T(shape.replace('M', m)));
                        if !post.is_empty() {
                            i.push(I::T(" ".into()));
                            i.push(span(if post.contains('*') { 0 } else { 1 }, false, t("y")));
                        }
                        spot(p, i, &mut w)
                    });
                }
            }
        }
    }
    cx.space("marks of one kind, anywhere in a text");
    for (k, m) in ["*", "_", "`", "#"].iter().enumerate() {
        let n = cx.tier.pick(8, 10);
        let texts = [["a", " ", m, "."], ["é", " ", m, "”"], ["1", "—", m, ","], ["a", "\n", m, "-"], ["b", "/", m, "("], ["z", "|", m, ")"], ["Q", "!", m, "?"], ["x", "…", m, "“"]];
        for (nth, alpha) in texts.iter().enumerate() {
        seqs(4, 1..=if nth == 0 { n } else { n - 2 }, |v| {
            let s: String = v.iter().map(|&i| alpha[i]).collect();
            // what starts a block, and doubled marks, are elsewhere
            if s.starts_with([' ', '\n', '.']) || s.ends_with([' ', '\n']) || s.contains("\n\n") || s.contains("--") || s.contains("\n* ") || s.contains("//")
                || s.lines().any(|l| l.starts_with("-")) || s.starts_with("* ") || s == *m
                || s.contains(&m.repeat(2)) || s.contains("...") || !s.contains(m)
            {
                return;
            }
            if cx.mine() {
                let src = s + "\n";
                cx.check(v.len(), &src, |o| {
                    o.ran();
                    let want = format!("para \"{}\"\n", crate::canon::esc(&pairs(src.trim_end_matches('\n'), m, Sp::ALL[k].name())));
                    let got = sut::tree(&src);
                    o.saw(&got);
                    same("the tree differs", &want, &got)
                });
            }
        });
        }
    }
    cx.space("marks of one kind, inside of something else");
    for (k, m) in ["*", "_", "`", "#"].iter().enumerate() {
        for alpha in [["a", " ", m, "."], ["é", "\n", m, "”"], ["1", "-", m, ","]] {
            seqs(4, 1..=cx.tier.pick(6, 8), |v| {
                let s: String = v.iter().map(|&i| alpha[i]).collect();
                if s.starts_with([' ', '\n']) || s.ends_with([' ', '\n']) || s.contains("\n\n") || s.contains("--") || s.contains("\n* ")
                    || s.contains(&m.repeat(2)) || s.contains("...") || !s.contains(m)
                {
                    return;
                }
                for outer in 0..11 {
                    for alone in [false, true] {
                        // another kind, or two of them, and nothing ahead of it that is a role
                        if (outer == k || outer == k + 4 || outer == 10 && k < 2 || !alone && s.ends_with("\n*")) || !cx.mine() {
                            continue;
                        }
                        let (o, c) = [
                            ("*", "*"), ("_", "_"), ("`", "`"), ("#", "#"), ("**", "**"), ("__", "__"), ("``", "``"), ("##", "##"),
                            ("https://x.org[", "]"), ("footnote:[", "]"), ("*y _", "_*"),
                        ][outer];
                        let text = if alone { s.clone() } else { format!("x {s} z") };
                        let src = format!("w {o}{text}{c} w\n");
                        cx.check(v.len() + 1, &src, |ob| {
                            ob.ran();
                            let inner = pairs(&text, m, Sp::ALL[k].name());
                            let name = |k: usize, form: &str| format!("{}{form}", Sp::ALL[k].name());
                            let want = match outer {
                                0..=3 => format!("⟨{}:{inner}⟩", name(outer, "")),
                                4..=7 => format!("⟨{}:{inner}⟩", name(outer - 4, "!")),
                                8 => format!("⟨link https://x.org|{inner}⟩"),
                                9 => format!("⟨footnote:{inner}⟩"),
                                _ => format!("⟨strong:y ⟨emphasis:{inner}⟩⟩"),
                            };
                            let got = sut::tree(&src);
                            ob.saw(&got);
                            same("the tree differs", &format!("para \"w {} w\"\n", crate::canon::esc(&want)), &got)
                        });
                    }
                }
            });
        }
    }
    cx.space("verses, line by line");
    for a in 0..ATOMS {
        for b in 0..ATOMS {
            if a != 18 && b != 18 {
                for n in 0..2 {
                    go(cx, 3, true, || verse(a, b, n, &mut Words::default()));
                }
            }
        }
    }
    cx.space("many spans");
    for n in [10, 31] {
        for k in 0..ATOMS {
            for s in 0..SEPS.len() {
                go(cx, n, n == 10, || {
                    let mut w = Words::default();
                    let parts = (0..n).map(|_| atom(k, &mut w)).collect();
                    vec![B::Para(join(parts, &vec![s; n - 1])).into()]
                });
            }
        }
    }
}
