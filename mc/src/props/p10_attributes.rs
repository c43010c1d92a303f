//! A reference to an attribute is replaced by the value it was given last; others are left alone.
use super::p08_spans::*;
use super::*;
use crate::canon::esc;
use crate::engine::*;
use crate::sut;

const VALUES: [&str; 20] = [
    "v", "two words", "x: y", "a:b:c", "*b*", "_b", "`c`", "#d#", "<i>t</i>", "R & D", "\"q\"", "[n]", "{b}", "| p", "é—😀",
    "* li", "== h", "https://x.org/?a=1", "a  b", "-",
];

/// One step of a document's history.
#[derive(Clone, Copy)]
enum Op {
    Set(&'static str, &'static str),
    Use(&'static str),
}

const OPS: [Op; 10] = [
    Op::Set("a", "v"),
    Op::Set("a", "x: y"),
    Op::Set("a", ""),
    Op::Set("b-2", "ab"),
    Op::Set("b-2", "*v"),
    Op::Set("ab", "z"),
    Op::Use("a"),
    Op::Use("b-2"),
    Op::Use("ab"),
    Op::Use("none"),
];

pub fn run(cx: &mut Cx) {
    cx.space("histories of settings and references");
    seqs(OPS.len(), 1..=cx.tier.pick(5, 6), |v| {
        for title in [false, true] {
            if cx.mine() {
                let mut src = String::new();
                let mut env: std::collections::BTreeMap<&str, &str> = Default::default();
                let mut want = String::new();
                let mut paras = String::new();
                let mut in_header = title;
                if title {
                    src += "= T\n";
                }
                let end = |in_header: &mut bool, want: &mut String, env: &std::collections::BTreeMap<&str, &str>| {
                    if *in_header {
                        *want += "header \"T\"\n";
                        for (k, v) in env {
                            *want += &format!("attr {k}={v}\n");
                        }
                        *in_header = false;
                    }
                };
                for &k in v {
                    match OPS[k] {
                        Op::Set(n, x) => {
                            src += &format!(":{n}: {x}\n");
                            env.insert(n, x);
                        }
                        Op::Use(n) => {
                            end(&mut in_header, &mut want, &env);
                            src += &format!("\nx{{{n}}} y\n\n");
                            let val = env.get(n).map(|v| v.to_string()).unwrap_or(format!("{{{n}}}"));
                            paras += &format!("para \"{}\"\n", esc(&format!("x{val} y")));
                        }
                    }
                }
                end(&mut in_header, &mut want, &env);
                want += &paras;
                cx.check(v.len(), &src, |o| {
                    o.ran();
                    let got = sut::tree(&src);
                    o.saw(&got);
                    same("the tree differs", &want, &got)
                });
            }
        }
    });
    cx.space("values in every place");
    for value in VALUES {
        for p in 0..SPOTS {
            for form in 0..9 {
                if cx.mine() {
                    let mut w = Words::default();
                    let r = vec![I::R("{at-1}".into(), value.into())];
                    let i = match form {
                        0 => r,
                        1 => [w.w(), r, w.w()].concat(),
                        2 => [t("x "), r, t(" y")].concat(),
                        3 => [vec![span(0, false, r)], t(" y")].concat(),
                        4 => [t("x "), vec![span(2, false, [t("y "), r].concat())]].concat(),
                        5 => [t("x "), vec![I::Link("https://z.org".into(), r)], t(" y")].concat(),
                        6 => [t("x"), vec![I::Fn([t("y "), r, t(" z")].concat())], t(" y")].concat(),
                        7 => [r.clone(), r.clone(), t(", "), r].concat(),
                        _ => [t("x "), vec![span(1, true, r.clone())], r].concat(),
                    };
                    let doc = spot(p, i, &mut w);
                    let src = format!(":at-1: {value}\n\n{}", source(&doc));
                    // there is a value of its own for each place that html escapes
                    let html = form == 2 || value.contains('<');
                    cx.check(3, &src, |o| {
                        super::p03_blocks::holds_src(&doc, &src, o)?;
                        if html {
                            o.ran();
                            same("the html differs", &sut::html_want(&html_all(&doc)), &sut::html_body(&sut::parse(&src)?)?)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    cx.space("names");
    let chars = ["a", "1", "-", "_", "é", "B"];
    seqs(chars.len(), 1..=cx.tier.pick(4, 5), |v| {
        let name: String = v.iter().map(|&i| chars[i]).collect();
        if !name.starts_with('-') && cx.mine() {
            let src = format!(":{name}: val\n\nx {{{name}}}{{{name}}}, {{{name}x}} {{x{name}}}\n");
            cx.check(v.len(), &src, |o| {
                o.ran();
                let got = sut::tree(&src);
                o.saw(&got);
                same("the tree differs", &format!("para \"x valval, {{{name}x}} {{x{name}}}\"\n"), &got)
            });
        }
    });
    cx.space("what only looks like a reference");
    for text in ["{", "}", "{}", "{ab", "ab}", "{ab }", "{ ab}", "{a b}", "{ab.c}", "{ab", "{{ab", "ab}}", "{ab:c}", "$ab", "{ab\nab}", "{a-}", "{b}"] {
        for p in 0..SPOTS {
            if one_line(p) && text.contains('\n') {
                continue;
            }
            for around in ["T", "x T", "T y", "x T y", "xTy"] {
                if cx.mine() {
                    let mut w = Words::default();
                    let doc = spot(p, t(&around.replace('T', text)), &mut w);
                    let src = format!(":ab: val\n:a: wrong\n\n{}", source(&doc));
                    cx.check(2, &src, |o| super::p03_blocks::holds_src(&doc, &src, o));
                }
            }
        }
    }
    cx.space("what only looks like an entry");
    for line in [":ab", ":ab c: d", ": ab: c", ":ab c", "::ab: c", "x:ab: c", ":a b c: {ab}", " :ab: c", ":", "::", ": :", ":a, b: c", "-:ab: c"] {
        for before in ["", "x\n\n", "= T\n\n", "== S\n\n", "====\nx\n\n"] {
            if cx.mine() {
                let src = format!(":ab: val\n\n{before}{line}\n\n{{ab}} {{a b}} end\n");
                cx.check(2, &src, |o| {
                    o.ran();
                    let got = sut::tree(&src);
                    o.saw(&got);
                    let text = line.replace("{ab}", "val");
                    match got.contains(&format!("{}\"\n", esc(text.trim()))) && got.contains("para \"val {a b} end\"\n") {
                        true => Ok(()),
                        false => Err(format!("no paragraph with the line, or none with the value\n{got}")),
                    }
                });
            }
        }
    }
    cx.space("values further down");
    for p in 0..DEEP {
        for value in VALUES {
            if cx.mine() {
                let mut w = Words::default();
                let r = vec![I::R("{at-1}".into(), value.into())];
                let doc = deep(p, [w.w(), t(" "), vec![span(0, false, r.clone())], t(" "), r].concat(), &mut w);
                let src = format!(":at-1: {value}\n\n{}", source(&doc));
                cx.check(3, &src, |o| super::p03_blocks::holds_src(&doc, &src, o));
            }
        }
    }
    cx.space("verbatim blocks are left alone");
    for k in [1, 12, 13, 24] {
        for line in ["{ab}", "x {ab} y", ":ab: other", "{ab}{ab}"] {
            for n in 1..4 {
                if cx.mine() {
                    let lines = vec![line.to_string(); n];
                    let b = match k {
                        1 => B::Leaf(Leaf::Listing, lines),
                        12 => B::Leaf(Leaf::Literal, lines),
                        13 => B::Leaf(Leaf::Pass, lines),
                        _ => B::Source("x".into(), lines),
                    };
                    let doc = vec![b.into(), B::Para(vec![I::R("{ab}".into(), "val".into())]).into()];
                    let src = format!(":ab: val\n\n{}", source(&doc));
                    cx.check(n, &src, |o| super::p03_blocks::holds_src(&doc, &src, o));
                }
            }
        }
    }
    cx.space("how entries are written");
    for entry in [":ab: val", ":ab:val", ":ab:   val", ":ab: val  ", ":ab:\tval"] {
        for before in ["", "// c\n", "\n", "x\n\n", "= T\n", "= T\n:other: o\n", "== S\n\n", "* l\n\n", "----\nc\n----\n\n", "x\n"] {
            for after in ["\n\n", "\n:zz: y\n\n", "\n// c\n\n"] {
                if cx.mine() {
                    let src = format!("{before}{entry}{after}{{ab}} end\n");
                    cx.check(3, &src, |o| {
                        o.ran();
                        let got = sut::tree(&src);
                        o.saw(&got);
                        if got.contains("para \"val end\"") && !got.contains(":ab") {
                            Ok(())
                        } else {
                            Err(format!("no paragraph with the value\n{got}"))
                        }
                    });
                }
            }
        }
    }
}
