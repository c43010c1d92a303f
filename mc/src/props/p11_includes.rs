//! Including a file is the same as having written its contents there.
use super::*;
use crate::engine::*;
use crate::sut;
use std::fs;
use std::path::{Path, PathBuf};

/// Files, written out in a directory of their own.
pub struct Tree {
    pub dir: PathBuf,
}

impl Tree {
    pub fn new(cx: &Cx, files: &[(String, String)]) -> Tree {
        let dir = cx.scratch.join("tree");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        for (p, c) in files {
            put(&dir, p, c.as_bytes());
        }
        Tree { dir }
    }
}

pub fn put(dir: &Path, path: &str, c: &[u8]) {
    let p = dir.join(path);
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, c).unwrap();
}

pub fn label(files: &[(String, String)]) -> String {
    files.iter().map(|(p, c)| format!("==> {p}\n{c}")).collect::<Vec<_>>().join("\n")
}

pub fn f(p: &str, c: impl Into<String>) -> (String, String) {
    (p.to_string(), c.into())
}

/// The first file is the document; its tree has to be `want`.
fn case(cx: &mut Cx, steps: usize, files: Vec<(String, String)>, want: &str) {
    let l = label(&files);
    let t = Tree::new(cx, &files);
    cx.check(steps, &l, |o| {
        o.ran();
        let got = sut::tree_at(&files[0].1, &t.dir.join(&files[0].0));
        o.saw(&got);
        same("the tree differs", want, &got)
    });
}

fn lists_meet(v: &[usize]) -> bool {
    v.windows(2).any(|p| is_list(p[0]) && is_list(p[1]))
}

pub fn run(cx: &mut Cx) {
    cx.space("blocks before, in and after the file");
    // 0: nothing before or after
    seqs(KINDS + 1, 3..=3, |v| {
        if v[1] == 0 || v[0] > 0 && is_list(v[0] - 1) && is_list(v[1] - 1) || v[2] > 0 && is_list(v[2] - 1) && is_list(v[1] - 1) {
            return;
        }
        if cx.mine() {
            let mut w = Words::default();
            let mut part = |k: usize| if k == 0 { vec![] } else { vec![kind(k - 1, &mut w)] };
            let (a, b, c) = (part(v[0]), part(v[1]), part(v[2]));
            let ext = ["adoc", "asciidoc", "txt"][(v[0] + v[2]) % 3];
            let mut main = String::new();
            if !a.is_empty() {
                main += &format!("{}\n", source(&a));
            }
            main += &format!("include::part.{ext}[]\n");
            if !c.is_empty() {
                main += &format!("\n{}", source(&c));
            }
            let mut inner = source(&b);
            if v[2] % 2 == 1 {
                inner.pop();
            }
            let want = canon_all(&[a, b, c].concat());
            case(cx, 3, vec![f("main.adoc", main), f(&format!("part.{ext}"), inner)], &want);
        }
    });
    cx.space("two blocks in the file");
    seqs(KINDS, 2..=cx.tier.pick(2, 3), |v| {
        if !lists_meet(v) && cx.mine() {
            let mut w = Words::default();
            let b: Vec<Blk> = v.iter().map(|&k| kind(k, &mut w)).collect();
            let z = para(&w.s());
            let main = format!("include::part.adoc[]\n\n{}", source(&[z.clone()]));
            let inner = source(&b);
            let want = canon_all(&[b, vec![z]].concat());
            case(cx, v.len() + 1, vec![f("main.adoc", main), f("part.adoc", inner)], &want);
        }
    });
    cx.space("inside of blocks, lists and sections");
    for place in 0..CONTAINERS + 4 {
        for a in 0..KINDS {
            for b in 0..=KINDS {
                let second = b.checked_sub(1);
                if second.is_some_and(|b| is_list(a) && is_list(b)) {
                    continue;
                }
                let delim = if place < CONTAINERS { container_delim(place) } else { "" };
                if !delim.is_empty() && (delim_of(a) == delim || second.is_some_and(|b| delim_of(b) == delim)) {
                    continue;
                }
                // a list item takes one block for each continuation; what is included after the
                // first is not attached
                if place >= CONTAINERS && place < CONTAINERS + 3 && (second.is_some() || is_list(a) || a == 18 || a == 19) {
                    continue;
                }
                if !cx.mine() {
                    continue;
                }
                let mut w = Words::default();
                let mut inner = vec![kind(a, &mut w)];
                if let Some(b) = second {
                    inner.push(kind(b, &mut w));
                }
                let text = source(&inner);
                let z = para(&w.s());
                let tail = source(&[z.clone()]);
                let inc = "include::part.adoc[]";
                let (main, doc): (String, Vec<Blk>) = match place.checked_sub(CONTAINERS) {
                    None => {
                        let head = if place == 4 { "[CAUTION]\n" } else { "" };
                        (format!("{head}{delim}\n{inc}\n{delim}\n\n{tail}"), vec![container(place, inner), z])
                    }
                    Some(l @ (0 | 1)) => {
                        let m = ["*", "."][l];
                        let (p, q) = (w.w(), w.w());
                        let main = format!("{m} {}\n+\n{inc}\n{m} {}\n\n{tail}", inl_src(&p), inl_src(&q));
                        let items = vec![
                            Item { principal: p, attached: inner, nested: vec![] },
                            Item { principal: q, ..Item::default() },
                        ];
                        (main, vec![B::List(m.into(), items).into(), z])
                    }
                    Some(2) => {
                        let (p, q) = (w.w(), w.w());
                        let main = format!("{}:: {}\n+\n{inc}\n\n{tail}", inl_src(&p), inl_src(&q));
                        let items = vec![DItem { term: p, principal: Some(q), attached: inner, nested: vec![] }];
                        (main, vec![B::DList(items).into(), z])
                    }
                    _ => {
                        let t = w.w();
                        let main = format!("== {}\n\n{inc}\n\n{tail}", inl_src(&t));
                        inner.push(z);
                        (main, vec![B::Sec(1, t, inner).into()])
                    }
                };
                let want = canon_all(&doc);
                case(cx, 4, vec![f("main.adoc", main), f("part.adoc", text)], &want);
            }
        }
    }
    cx.space("files that include files, in other directories");
    // each file is next to, below, beside or above the one that includes it; there are files of the
    // same name everywhere else
    seqs(4, 1..=cx.tier.pick(4, 5), |v| {
        for twice in [false, true] {
            if !cx.mine() {
                continue;
            }
            let mut at = PathBuf::from("r/s/t/u/v");
            let mut files = vec![];
            let mut want_pre = vec![];
            let mut want_post = vec![];
            let main = at.join("main.adoc").to_string_lossy().to_string();
            let mut here = main.clone();
            for (i, &d) in v.iter().enumerate() {
                let rel = match d {
                    0 => String::new(),
                    1 => format!("sub{i}/"),
                    2 => format!("../side{i}/"),
                    _ => "../".to_string(),
                };
                let target = format!("{rel}f{i}.adoc");
                let again = if twice { format!("include::{rel}g{i}.adoc[]\n\n") } else { String::new() };
                files.push(f(&here, format!("p{i}\n\ninclude::{target}[]\n\n{again}q{i}\n")));
                want_pre.push(format!("p{i}"));
                want_post.insert(0, format!("q{i}"));
                if twice {
                    want_post.insert(0, format!("g{i}"));
                }
                match d {
                    0 => {}
                    1 => at.push(format!("sub{i}")),
                    2 => {
                        at.pop();
                        at.push(format!("side{i}"));
                    }
                    _ => {
                        at.pop();
                    }
                }
                here = at.join(format!("f{i}.adoc")).to_string_lossy().to_string();
                if twice {
                    files.push(f(&at.join(format!("g{i}.adoc")).to_string_lossy(), format!("g{i}\n")));
                }
            }
            files.push(f(&here, "last\n"));
            want_pre.push("last".into());
            // the same names where they should not be looked for
            let real: Vec<String> = files.iter().map(|x| x.0.clone()).collect();
            let names: Vec<String> = (0..v.len()).flat_map(|i| [format!("f{i}.adoc"), format!("g{i}.adoc")]).collect();
            for d in ["r/s/t/u/v", "r/s/t/u", "r/s/t", "r/s", "r"] {
                for n in &names {
                    let p = format!("{d}/{n}");
                    if !real.contains(&p) {
                        files.push(f(&p, "decoy\n"));
                    }
                }
            }
            let want: String = want_pre.iter().chain(&want_post).map(|s| format!("para \"{s}\"\n")).collect();
            case(cx, v.len() * 2, files, &want);
        }
    });
    cx.space("levels");
    // the headings of the file, what is said about levels before and in the include
    for outer in ["", "1", "+1"] {
        for given in ["", "leveloffset=1", "leveloffset=+1", "leveloffset=+2", "leveloffset=0", "leveloffset=-1"] {
            seqs(3, 1..=cx.tier.pick(3, 4), |v| {
                for after in 0..3 {
                    if !cx.mine() {
                        continue;
                    }
                    let mut w = Words::default();
                    let base: i32 = if outer.is_empty() { 0 } else { 1 };
                    let cur = match given.strip_prefix("leveloffset=") {
                        None => base,
                        Some(g) if g.starts_with(['+', '-']) => base + g.parse::<i32>().unwrap(),
                        Some(g) => g.parse().unwrap(),
                    };
                    let mut flat = vec![];
                    let mut inner = String::new();
                    for &l in v {
                        let (t, p) = (w.w(), w.s());
                        inner += &format!("{} {}\n\n{p}\n\n", "=".repeat(l + 2), inl_src(&t));
                        flat.push((l as i32 + 1 + cur, t, vec![para(&p)]));
                    }
                    let (t, p) = (w.w(), w.s());
                    let mut main = "== Top\n\n".to_string();
                    if !outer.is_empty() {
                        main += &format!(":leveloffset: {outer}\n\n");
                    }
                    main += &format!("include::part.adoc[{given}]\n\n{} {}\n\n{p}\n", "=".repeat(after + 2), inl_src(&t));
                    flat.insert(0, (1, super::t("Top"), vec![]));
                    flat.push((after as i32 + 1 + base, t, vec![para(&p)]));
                    let bad = flat.iter().any(|x| !(1..=4).contains(&x.0));
                    let files = vec![f("main.adoc", main), f("part.adoc", inner)];
                    if bad {
                        fails(cx, 2, files);
                    } else {
                        let flat: Vec<_> = flat.into_iter().map(|(l, t, b)| (l as usize, t, b)).collect();
                        let want = canon_all(&super::p04_sections::nest(&flat));
                        case(cx, v.len() + 2, files, &want);
                    }
                }
            });
        }
    }
    cx.space("levels in files that include files");
    const GIVEN: [&str; 6] = ["", "1", "+1", "0", "-1", "2"];
    seqs(GIVEN.len(), 1..=cx.tier.pick(4, 5), |v| {
        for outer in [0, 1] {
            let mut offs = vec![outer];
            for &g in v {
                let cur = offs[offs.len() - 1];
                offs.push(match GIVEN[g] {
                    "" => cur,
                    g if g.starts_with(['+', '-']) => cur + g.parse::<i32>().unwrap(),
                    g => g.parse().unwrap(),
                });
            }
            // how headings nest is for others to check, so that there is one level per file
            if offs.iter().any(|o| !(0..=3).contains(o)) || !cx.mine() {
                continue;
            }
            let mut files = vec![];
            let mut want: Vec<String> = vec![];
            for i in 0..=v.len() {
                let mut s = if i == 0 && outer != 0 { format!(":leveloffset: {outer}\n\n") } else { String::new() };
                s += &format!("== a{i}\n\nb\n\n");
                if i < v.len() {
                    let given = GIVEN[v[i]];
                    let given = if given.is_empty() { String::new() } else { format!("leveloffset={given}") };
                    s += &format!("include::f{}.adoc[{given}]\n\n== z{i}\n\nb\n", i + 1);
                }
                files.push(f(&format!("f{i}.adoc"), s));
                want.push(format!("{} a{i}", offs[i] + 1));
            }
            want.extend((0..v.len()).rev().map(|i| format!("{} z{i}", offs[i] + 1)));
            let l = label(&files);
            let t = Tree::new(cx, &files);
            cx.check(v.len() * 2, &l, |o| {
                o.ran();
                let mut got = vec![];
                headings(&sut::json(&sut::parse_at(&files[0].1, &t.dir.join("f0.adoc"))?), &mut got);
                o.saw(&got.join("\n"));
                same("the headings differ", &want.join("\n"), &got.join("\n"))
            });
        }
    });
    cx.space("attributes go in and come out");
    for (main, part, want) in [
        (":a: 1\n\ninclude::part.adoc[]\n", "x {a}\n", "x 1"),
        ("include::part.adoc[]\n\nx {a}\n", ":a: 2\n", "x 2"),
        (":a: 1\n\ninclude::part.adoc[]\n\nx {a}\n", ":a: 2\n", "x 2"),
        (":a: 1\n\ninclude::part.adoc[]\n\n:a: 3\n\nx {a}\n", ":a: 2\n", "x 3"),
        ("include::part.adoc[]\n\ninclude::part.adoc[]\n\nx {a}\n", ":a: 2\n", "x 2"),
    ] {
        if cx.mine() {
            case(cx, 2, vec![f("main.adoc", main), f("part.adoc", part)], &format!("para \"{want}\"\n"));
        }
    }
    cx.space("nothing in the file");
    for part in ["", "\n", "\n\n", "// c\n", "////\nc\n////\n"] {
        for k in 0..KINDS {
            if cx.mine() {
                let mut w = Words::default();
                let (a, b) = (kind(k, &mut w), para(&w.s()));
                let main = format!("{}\ninclude::part.adoc[]\n\n{}", source(&[a.clone()]), source(&[b.clone()]));
                case(cx, 2, vec![f("main.adoc", main), f("part.adoc", part)], &canon_all(&[a, b]));
            }
        }
    }
    cx.space("the same file many times");
    for n in [2, 3, 10, 63, 64, 65, 200] {
        for k in 0..KINDS {
            if cx.mine() {
                let mut w = Words::default();
                let b = kind(k, &mut w);
                let z = para(&w.s());
                let zs = source(&[z.clone()]);
                let main = format!("include::part.adoc[]\n\n{zs}\n").repeat(n);
                let doc: Vec<Blk> = (0..n).flat_map(|_| [b.clone(), z.clone()]).collect();
                case(cx, n, vec![f("main.adoc", main), f("part.adoc", source(&[b]))], &canon_all(&doc));
            }
        }
    }
    cx.space("what cannot be included is an error");
    for (files, bad) in [
        (vec![("main.adoc", "include::none.adoc[]\n")], ""),
        (vec![("main.adoc", "x\n\ninclude::none.adoc[]\n\ny\n")], ""),
        (vec![("main.adoc", "include::a.adoc[]\n"), ("a.adoc", "include::none.adoc[]\n")], ""),
        (vec![("main.adoc", "include::sub/a.adoc[]\n"), ("sub/a.adoc", "include::b.adoc[]\n"), ("b.adoc", "x\n")], ""),
        (vec![("sub/main.adoc", "include::a.adoc[]\n"), ("a.adoc", "x\n")], ""),
        (vec![("main.adoc", "include::d[]\n"), ("d/x", "x\n")], ""),
        (vec![("main.adoc", "include::main.adoc[]\n")], ""),
        (vec![("main.adoc", "x\n\ninclude::a.adoc[]\n"), ("a.adoc", "y\n\ninclude::a.adoc[]\n")], ""),
        (vec![("main.adoc", "include::a.adoc[]\n"), ("a.adoc", "include::b.adoc[]\n"), ("b.adoc", "include::a.adoc[]\n")], ""),
        (vec![("main.adoc", "include::bad.adoc[]\n")], "bad.adoc"),
        (vec![("main.adoc", "----\ninclude::none.rs[]\n----\n")], ""),
        (vec![("main.adoc", "----\ninclude::bad.rs[]\n----\n")], "bad.rs"),
        (vec![("main.adoc", "* x\n+\ninclude::none.adoc[]\n")], ""),
        (vec![("main.adoc", "====\ninclude::none.adoc[]\n====\n")], ""),
        (vec![("main.adoc", "include::none.adoc[lines=1]\n")], ""),
        (vec![("main.adoc", "include::none.adoc[tag=x]\n")], ""),
        (vec![("main.adoc", "include::a.adoc[leveloffset=x]\n"), ("a.adoc", "x\n")], ""),
        (vec![("main.adoc", "x\n\ninclude::a.adoc[]\n"), ("a.adoc", "= Title\n")], ""),
    ] {
        if cx.mine() {
            let files: Vec<_> = files.into_iter().map(|(p, c)| f(p, c)).collect();
            let t = Tree::new(cx, &files);
            if !bad.is_empty() {
                put(&t.dir, bad, b"a\xff\xfeb\n");
            }
            let l = label(&files);
            cx.check(2, &l, |o| rejected(&files, &t.dir, o));
        }
    }
}

fn rejected(files: &[(String, String)], dir: &Path, o: &mut Obs) -> Result<(), String> {
    o.ran();
    let got = sut::tree_at(&files[0].1, &dir.join(&files[0].0));
    o.hit("rejected");
    if got.starts_with("error:") {
        Ok(())
    } else {
        Err(format!("accepted:\n{got}"))
    }
}

/// Levels and texts of all headings, in order
fn headings(v: &serde_json::Value, out: &mut Vec<String>) {
    if v["name"] == "section" {
        let mut text = String::new();
        super::p09_text::texts(&v["title"], &mut text);
        out.push(format!("{} {}", v["level"], text.trim()));
    }
    for b in v["blocks"].as_array().into_iter().flatten() {
        headings(b, out);
    }
}

fn fails(cx: &mut Cx, steps: usize, files: Vec<(String, String)>) {
    let l = label(&files);
    let t = Tree::new(cx, &files);
    cx.check(steps, &l, |o| rejected(&files, &t.dir, o));
}
