//! Symbols written in plain characters come out as those symbols, in text and nowhere else.
use super::p08_spans::{deep, go, one_line, span, spot, DEEP, SPOTS};
use super::*;
use crate::engine::*;
use crate::sut;

/// As written, and what that means
const SYMBOLS: [(&str, &str); 13] = [
    ("(C)", "©"),
    ("(R)", "®"),
    ("(TM)", "™"),
    ("->", "→"),
    ("=>", "⇒"),
    ("<-", "←"),
    ("<=", "⇐"),
    ("--", "—"),
    ("'s", "’s"),
    ("&lt;", "<"),
    ("&#169;", "©"),
    ("&mdash;", "—"),
    ("&amp;", "&"),
];
/// Further references
pub const REFS: [(&str, &str); 46] = [
    ("&mdash;", "—"), ("&#8212;", "—"), ("&dollar;", "$"), ("&amp;", "&"), ("&#38;", "&"), ("&gt;", ">"), ("&#62;", ">"),
    ("&lt;", "<"), ("&#60;", "<"), ("&equals;", "="), ("&plus;", "+"), ("&#169;", "©"), ("&copy;", "©"), ("&#174;", "®"),
    ("&reg;", "®"), ("&#8482;", "™"), ("&trade;", "™"), ("&#8230;", "…"), ("&#8594;", "→"), ("&#8658;", "⇒"), ("&#8592;", "←"),
    ("&#8656;", "⇐"), ("&sect;", "§"), ("&#167;", "§"), ("&euro;", "€"), ("&#8364;", "€"), ("&yen;", "¥"), ("&#165;", "¥"),
    ("&quot;", "\""), ("&#34;", "\""), ("&#39;", "'"), ("&apos;", "'"), ("&lsquo;", "‘"), ("&#8216;", "‘"), ("&rsquo;", "’"),
    ("&#8217;", "’"), ("&ldquo;", "“"), ("&#8220;", "“"), ("&rdquo;", "”"), ("&#8221;", "”"), ("&#233;", "é"), ("&#xe9;", "é"),
    ("&#X1F600;", "😀"), ("&#128512;", "😀"), ("&frac12;", "½"), ("&sup2;", "²"),
];
/// With quotes of two kinds
const ALL: usize = SYMBOLS.len() + 2;

const BEFORE: [&str; 5] = [" ", "", "\n", ", ", "("];
const AFTER: [&str; 6] = [" ", "", "\n", ", ", ")", "."];

/// Symbol `k` between what is before and after it, or nothing if that is something else entirely
fn symbol(k: usize, before: &str, after: &str, w: &mut Words) -> Option<Inls> {
    if k >= SYMBOLS.len() {
        // in the middle of words these are not quotes
        if before.is_empty() || after.is_empty() {
            return None;
        }
        let (o, c, oo, cc) = [("\"`", "`\"", "“", "”"), ("'`", "`'", "‘", "’")][k - SYMBOLS.len()];
        let text = format!("{} {}", w.s(), w.s());
        return Some(vec![I::R(o.into(), oo.into()), I::T(text), I::R(c.into(), cc.into())]);
    }
    let (s, means) = SYMBOLS[k];
    let is = match s {
        "--" if before == "\n" && after == "\n" => return None,
        "--" => after.is_empty() || after == " " || after == "\n",
        "'s" if !before.is_empty() => return None,
        "'s" => after == " " || after == "\n",
        _ => true,
    };
    Some(vec![if is { I::R(s.into(), means.into()) } else { I::T(s.into()) }])
}

/// A text with symbols in it: what is before and after each, and a word after that
fn text(v: &[usize], before: &[&str], after: &[&str], w: &mut Words) -> Option<Inls> {
    let mut i = w.w();
    for (n, &k) in v.iter().enumerate() {
        i.push(I::T(before[n].into()));
        i.extend(symbol(k, before[n], after[n], w)?);
        i.push(I::T(after[n].into()));
        i.extend(w.w());
    }
    Some(i)
}

/// What symbols there are in a line of characters: whatever comes first
fn read(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    'next: while let Some(c) = rest.chars().next() {
        for (s, means) in &SYMBOLS[..7] {
            if let Some(r) = rest.strip_prefix(s) {
                out += means;
                rest = r;
                continue 'next;
            }
        }
        if let Some(r) = rest.strip_prefix("--") {
            if r.chars().next().is_none_or(|c| c.is_alphanumeric() || c == ' ') {
                out += "—";
                rest = r;
                continue 'next;
            }
        }
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}

/// Quotes that pair up, as the language defines them
fn quotes(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or(' ');
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        let opens = |i: usize| at(i) == '"' && at(i + 1) == '`' && !(i > 0 && at(i - 1).is_alphanumeric()) && !at(i + 2).is_whitespace();
        let closes = |i: usize| at(i) == '`' && at(i + 1) == '"' && !at(i - 1).is_whitespace() && !at(i + 2).is_alphanumeric();
        let end = opens(i).then(|| (i + 3..c.len()).find(|&j| closes(j))).flatten();
        match end {
            Some(j) => {
                out += &format!("“{}”", c[i + 2..j].iter().collect::<String>());
                i = j + 2;
            }
            None => {
                out.push(c[i]);
                i += 1;
            }
        }
    }
    out
}

pub fn run(cx: &mut Cx) {
    let both = |cx: &mut Cx, steps: usize, html: bool, make: &dyn Fn(&mut Words) -> Option<Vec<Blk>>| {
        if make(&mut Words::default()).is_some() {
            go(cx, steps, html, || make(&mut Words::default()).unwrap_or_default());
        }
    };
    cx.space("a symbol anywhere");
    for p in 0..SPOTS {
        for k in 0..ALL {
            for b in BEFORE {
                for a in AFTER {
                    if !one_line(p) || b != "\n" && a != "\n" {
                        both(cx, 1, true, &|w| Some(spot(p, text(&[k], &[b], &[a], w)?, w)));
                    }
                }
            }
        }
    }
    cx.space("a symbol first or last");
    for p in 0..SPOTS {
        for k in 0..ALL {
            for last in [false, true] {
                // the marker of a description list comes right after
                if p == 9 && last && (k == 7 || k == 8) {
                    continue;
                }
                both(cx, 1, true, &|w| {
                    let i = if last {
                        [w.w(), t(if k == 8 { "" } else { " " }), symbol(k, if k == 8 { "" } else { " " }, " ", w)?].concat()
                    } else {
                        [symbol(k, " ", " ", w)?, t(" "), w.w()].concat()
                    };
                    Some(spot(p, i, w))
                });
            }
        }
    }
    cx.space("a symbol further down");
    for p in 0..DEEP {
        for k in 0..ALL {
            both(cx, 2, true, &|w| Some(deep(p, text(&[k], &[" "], &[" "], w)?, w)));
        }
    }
    cx.space("what only looks like a reference");
    const LOOKS: [&str; 13] = ["&a-b;", "&;", "&a", "& b;", "&a b;", "&#;", "&#-1;", "&#a;", "&#x;", "&a.b;", "a&b", "&a_b;", "&é-;"];
    for p in 0..SPOTS {
        for s in LOOKS {
            for b in BEFORE {
                for a in AFTER {
                    if !one_line(p) || b != "\n" && a != "\n" {
                        go(cx, 1, true, || {
                            let w = &mut Words::default();
                            spot(p, [w.w(), t(&format!("{b}{s}{a}")), w.w()].concat(), w)
                        });
                    }
                }
            }
        }
    }
    cx.space("symbols after one another");
    let max = cx.tier.pick(2, 3);
    seqs(ALL, 2..=max, |v| {
        for p in 0..SPOTS {
            seqs(BEFORE.len(), 2..=2, |b| {
                seqs(AFTER.len(), 2..=2, |a| {
                    let (b, a) = ([BEFORE[b[0]], BEFORE[b[1]], " "], [AFTER[a[0]], AFTER[a[1]], " "]);
                    if one_line(p) && (b.contains(&"\n") || a.contains(&"\n")) || v.len() > 2 && p > 0 {
                        return;
                    }
                    both(cx, v.len(), false, &|w| Some(spot(p, text(v, &b, &a, w)?, w)));
                });
            });
        }
    });
    cx.space("many symbols");
    for n in [3, 4, 8, 9, 20, 64] {
        for j in 0..ALL {
            for k in 0..ALL {
                for p in 0..cx.tier.pick(3, SPOTS) {
                    let v: Vec<usize> = (0..n).map(|i| if i % 3 == 2 { k } else { j }).collect();
                    // apostrophes are in a word
                    let b: Vec<&str> = v.iter().map(|&k| if k == 8 { "" } else { " " }).collect();
                    both(cx, n, false, &|w| Some(spot(p, text(&v, &b, &vec![" "; n], w)?, w)));
                }
            }
        }
    }
    cx.space("symbols in formatting");
    for k in 0..ALL {
        for f in 0..9 {
            for b in &BEFORE[..4] {
                for a in &AFTER[..4] {
                    both(cx, 2, true, &|w| {
                        let i = text(&[k], &[b], &[a], w)?;
                        // quotes in code are a matter of which backtick comes first
                        if f == 2 && k >= SYMBOLS.len() {
                            return None;
                        }
                        let x = match f {
                            0..=3 => vec![span(f, false, i)],
                            4..=6 => vec![span(f - 4, true, i)],
                            7 => vec![I::Link("https://x.org".into(), i)],
                            _ => vec![I::Fn(i)],
                        };
                        Some(vec![B::Para([w.w(), t(" "), x, t(" "), w.w()].concat()).into()])
                    });
                }
            }
        }
    }
    cx.space("references");
    for p in 0..SPOTS {
        for (s, means) in REFS {
            for b in BEFORE {
                for f in 0..8 {
                    if one_line(p) && b == "\n" {
                        continue;
                    }
                    go(cx, 2, b == " ", || {
                        let mut w = Words::default();
                        let r = vec![I::R(s.into(), means.into())];
                        let of = |i: Inls| if f < 7 { span(f % 4, f >= 4, i) } else { I::Link("https://x.org".into(), i) };
                        // formatting behind it, around it and ahead of it
                        let x = [
                            w.w(), t(" "), vec![of(w.w())], t(b), r.clone(), t(" "), vec![of(w.w())], t(" "),
                            vec![of([w.w(), t(b), r.clone(), w.w()].concat())], t(" "), w.w(), r, w.w(),
                        ];
                        spot(p, x.concat(), &mut w)
                    });
                }
            }
        }
    }
    cx.space("references in Word documents");
    for &(s, means) in &REFS[..44] {
        for b in BEFORE {
            for a in AFTER {
                for wrap in [false, true] {
                    super::p20_docx::go(cx, 1, |w| {
                        let i = [w.w(), t(b), vec![I::R(s.into(), means.into())], t(a), w.w()].concat();
                        vec![B::Para(if wrap { vec![span(0, false, i)] } else { i }).into()]
                    });
                }
            }
        }
    }
    cx.space("symbols in Word documents");
    for k in 0..ALL {
        for b in BEFORE {
            for a in AFTER {
                for wrap in [false, true] {
                    let make = |w: &mut Words| {
                        let i = text(&[k], &[b], &[a], w)?;
                        Some(vec![B::Para(if wrap { vec![span(0, false, i)] } else { i }).into()])
                    };
                    if make(&mut Words::default()).is_some() {
                        super::p20_docx::go(cx, 1, |w| make(w).unwrap_or_default());
                    }
                }
            }
        }
    }
    cx.space("not in verbatim text");
    seqs(ALL, 1..=2, |v| {
        // the canonical tree has what references refer to, even where they don't
        if v.iter().any(|k| (9..13).contains(k)) {
            return;
        }
        for a in [" ", ""] {
            for k in 0..14 {
                let mut line = String::from("w");
                for &k in v {
                    line += a;
                    line += SYMBOLS.get(k).map(|s| s.0).unwrap_or(["\"`q r`\"", "'`q r`'"][k % 2]);
                }
                let lines = vec![line.clone(), format!("{line} w")];
                go(cx, v.len(), k != 2 && k < 4, || {
                    let mut w = Words::default();
                    vec![match k {
                        // right after any character
                        5.. => B::Para([t("w"), t([" ", "", "(", "-", "\"", "\n", "é", "*", ","][k - 5]), vec![I::Raw(line)], t(")"), w.w()].concat()),
                        0 => B::Leaf(Leaf::Listing, lines),
                        1 => B::Leaf(Leaf::Literal, lines),
                        2 => B::Leaf(Leaf::Pass, lines),
                        3 => B::Source("rust".into(), lines),
                        4 => B::Para([t("w "), vec![I::Raw(line)], t(" w")].concat()),
                    }
                    .into()]
                });
            }
        }
    });
    cx.space("characters that might be symbols");
    const PARTS: [&str; 17] = ["(C)", "(R)", "(TM)", "->", "=>", "<-", "<=", "--", "-", "<", ">", "=", "(", "C)", " ", "w", "é"];
    seqs(PARTS.len(), 1..=cx.tier.pick(4, 5), |v| {
        let s: String = v.iter().map(|&i| PARTS[i]).collect();
        if s.contains("<<") || !cx.mine() {
            return;
        }
        let src = format!("x {s} y\n");
        let want = format!("x {} y", read(&format!("{s} ")).trim_end_matches(' '));
        cx.check(v.len(), &src, |o| {
            o.ran();
            let j = sut::json(&sut::parse(&src)?);
            let mut got = String::new();
            super::p09_text::texts(&j["blocks"], &mut got);
            let got = crate::canon::decode_entities(&got);
            o.saw(&got);
            o.hit(if got == src.trim() { "no symbols" } else { "symbols" });
            // how many spaces there are is of no concern
            let plain = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            same("the text", &plain(&want), &plain(&got))
        });
    });
    cx.space("characters that might be quotes");
    const QUOTES: [&str; 7] = ["\"`", "`\"", "w", " ", ", ", "\n", "é"];
    seqs(QUOTES.len(), 1..=cx.tier.pick(6, 7), |v| {
        let s: String = v.iter().map(|&i| QUOTES[i]).collect();
        let src = format!("x{s}y\n");
        let want = quotes(&format!("x{s}y"));
        // those that are left could be code; and without text there is no paragraph
        if want.matches('`').count() > 1 || s.contains("``") || s.contains("\n\n") || s.contains("\n \n") || s.contains(" \n") || !cx.mine() {
            return;
        }
        cx.check(v.len(), &src, |o| {
            o.ran();
            let j = sut::json(&sut::parse(&src)?);
            let mut got = String::new();
            super::p09_text::texts(&j["blocks"], &mut got);
            o.saw(&got);
            o.hit(if got.contains('“') { "quotes" } else { "no quotes" });
            same("the text", &want, got.trim_end())
        });
    });
}
