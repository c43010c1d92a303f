//! A table has the cells that were written, in rows of as many as there are columns.
use super::p08_spans::{atom, go, ATOMS};
use super::*;
use crate::engine::*;
use crate::sut;

/// Ways of giving the number of columns, and how many those are
const COLS: [(&str, usize); 16] = [
    ("", 0), ("[cols=1]", 1), ("[cols=2]", 2), ("[cols=3]", 3), ("[cols=\"4\"]", 4), ("[cols=\"1,1\"]", 2), ("[cols=\"1,2,1\"]", 3), ("[cols=\"2*\"]", 2),
    ("[cols=\"3*,1\"]", 4), ("[cols=\"1,2*\"]", 3), ("[cols=\"<1,^2,>3\"]", 3), ("[cols=\"2*m\"]", 2), ("[cols=\"1, 1\"]", 2), ("[cols=\"10*\"]", 10), ("[cols=\"a,b,c,d,e\"]", 5),
    ("[cols=\"12\"]", 12),
];

struct Grid {
    src: String,
    cells: Vec<String>,
    ncols: usize,
    header: bool,
}

/// `seps` is what is ahead of each cell: 0 a space, 1 a new line, 2 an empty line. The first cell
/// is always on a line of its own.
fn grid(cols: (&str, usize), blank: bool, cells: Vec<String>, seps: &[usize]) -> Grid {
    let mut src = String::new();
    if !cols.0.is_empty() {
        src += &format!("{}\n", cols.0);
    }
    src += "|===\n";
    if blank {
        src += "\n";
    }
    let mut first = 1;
    let mut counting = true;
    for (i, c) in cells.iter().enumerate() {
        if i > 0 {
            src += [" ", "\n", "\n\n"][seps[i - 1]];
            counting &= seps[i - 1] == 0;
            first += counting as usize;
        }
        src += &format!("|{c}");
    }
    src += "\n|===\n";
    let n = if cols.1 > 0 { cols.1 } else { first };
    Grid { src, cells, ncols: n, header: first > 1 && !blank }
}

impl Grid {
    fn tree(&self) -> String {
        let mut s = format!("table [cols={}{}]\n", self.ncols, if self.header { " %header" } else { "" });
        for c in &self.cells {
            s += &format!("  cell \"{}\"\n", c.trim());
        }
        s
    }
    fn html(&self) -> String {
        let cell = |c: &String, t: &str| format!("<{t}>{}</{t}>", c.trim());
        let mut s = "<table>".to_string();
        let mut body = &self.cells[..];
        if self.header {
            let n = self.ncols.min(body.len());
            s += &format!("<thead>{}</thead><tbody>", body[..n].iter().map(|c| cell(c, "th")).collect::<String>());
            body = &body[n..];
        }
        if body.is_empty() {
            s += "<tr></tr>";
        }
        for r in body.chunks(self.ncols) {
            s += &format!("<tr>{}</tr>", r.iter().map(|c| cell(c, "td")).collect::<String>());
        }
        if self.header {
            s += "</tbody>";
        }
        s + "</table>"
    }
}

fn check(cx: &mut Cx, g: Grid, html: bool) {
    cx.check(g.cells.len() + 1, &g.src, |o| {
        o.ran();
        let a = sut::parse(&g.src)?;
        let got = crate::canon::doc(&sut::json(&a));
        o.saw(&got);
        same("the tree differs", &g.tree(), &got)?;
        if html {
            o.ran();
            same("the html differs", &sut::html_want(&g.html()), &sut::html_body(&a)?)?;
            let titled = sut::parse(&format!("= T\n\n{}", g.src))?;
            same("the html with a document title differs", &sut::html_want(&g.html()), &sut::html_body(&titled)?)?;
        }
        Ok(())
    });
}

/// The cells of the only table there is
fn cells(src: &str) -> Result<Vec<String>, String> {
    let v = sut::json(&sut::parse(src)?);
    let mut found = vec![];
    super::p06_verbatim::find(&v, "table", &mut found);
    let [t] = found[..] else { return Err(format!("{} tables", found.len())) };
    let cell = |c: &serde_json::Value| {
        let mut s = String::new();
        crate::canon::block(c, 0, &mut s);
        s
    };
    Ok(t["blocks"].as_array().map(|a| a.iter().map(cell).collect()).unwrap_or_default())
}

pub fn run(cx: &mut Cx) {
    cx.space("rows and columns");
    for n in 1..=cx.tier.pick(6, 8) {
        seqs(3, n - 1..=n - 1, |v| {
            for (c, cols) in COLS.into_iter().enumerate() {
                for blank in [false, true] {
                    if cx.mine() {
                        let mut w = Words::default();
                        let g = grid(cols, blank, (0..n).map(|_| w.s()).collect(), v);
                        // one in four is rendered, and every one of those without columns
                        let html = c == 0 || (hash(v) as usize + c) % 4 == 0 || cx.tier == Tier::Thorough;
                        check(cx, g, html);
                    }
                }
            }
        });
    }
    cx.space("sizes");
    for rows in 1..=cx.tier.pick(12, 40) {
        for n in 1..=cx.tier.pick(12, 40) {
            for same in [true, false] {
                if cx.mine() {
                    let mut w = Words::default();
                    let seps: Vec<usize> = (1..rows * n).map(|i| if i % n == 0 || !same { 1 } else { 0 }).collect();
                    let cols = if same { String::new() } else { format!("[cols={n}]") };
                    let g = grid((&cols, if same { 0 } else { n }), false, (0..rows * n).map(|_| w.s()).collect(), &seps);
                    check(cx, g, rows * n <= 64);
                }
            }
        }
    }
    cx.space("cells with nothing in them");
    for n in 1..=cx.tier.pick(5, 6) {
        seqs(2, n..=n, |full| {
            seqs(2, n - 1..=n - 1, |v| {
                for pad in ["", " "] {
                    if cx.mine() {
                        let mut w = Words::default();
                        let cs = full.iter().map(|&f| if f == 1 { format!("{pad}{}{pad}", w.s()) } else { pad.to_string() }).collect();
                        let g = grid(COLS[0], false, cs, v);
                        check(cx, g, n <= 4);
                    }
                }
            })
        });
    }
    cx.space("inline markup in cells");
    for n in 1..=cx.tier.pick(3, 4) {
        seqs(ATOMS, n..=n, |v| {
            // the one on two lines
            if v.contains(&18) {
                return;
            }
            for same_line in [true, false] {
                go(cx, n, n < 3, || {
                    let mut w = Words::default();
                    let row: Vec<Inls> = v.iter().map(|&k| atom(k, &mut w)).collect();
                    let head: Vec<Inls> = v.iter().map(|_| w.w()).collect();
                    let header = same_line && n > 1;
                    let (cols, ncols) = if same_line { (None, n) } else { (Some(n.to_string()), n) };
                    vec![B::Table { cols, ncols, rows: vec![head, row], same_line, header }.into(), para(&w.s())]
                });
            }
        });
    }
    cx.space("a cell does not depend on the others");
    const ANY: [&str; 44] = [
        "a", "*b", "c*", "*d*", "**e", "f**", "_g", "h_", "__i", "`j", "k`", "``l", "#m", "n#", "^o", "p^", "~q", "r~", "\"`s", "t`\"", "'`u", "v`'", "+w", "x+", "++y",
        "z++", "+++a", "pass:[b", "c]", "[.d]#e#", "[.f]", "<<g", "h>>", "footnote:[i", "j]", "https://k.l[m", "image:n[", "{o}", "(C)", "it's", "a--b", "...", "<1>", "== p",
    ];
    seqs(ANY.len(), 2..=cx.tier.pick(3, 3), |v| {
        for sep in [" ", "\n"] {
            if (v.len() < 3 || cx.tier == Tier::Thorough || sep == " ") && cx.mine() {
                let row: Vec<String> = v.iter().map(|&k| format!("|{}", ANY[k])).collect();
                let src = format!("|===\n{}\n|===\n", row.join(sep));
                cx.check(v.len(), &src, |o| {
                    o.ran();
                    let got = cells(&src)?;
                    o.saw(&got);
                    let mut want = vec![];
                    for (i, c) in row.iter().enumerate() {
                        o.ran();
                        let pad = if i + 1 < row.len() && sep == " " { " " } else { "" };
                        want.extend(cells(&format!("|===\n{c}{pad}\n|===\n"))?);
                    }
                    same("the cells", &want.concat(), &got.concat())
                });
            }
        }
    });
    cx.space("texts that look like something else");
    odd(cx.tier.pick(3, 4), |s| {
        if s.contains('|') || s == "===" {
            return;
        }
        for v in 0..3 {
            if cx.mine() {
                let row = [format!("|{s}\n|x\n"), format!("|x |{s}\n"), format!("|x\n|{s}\n")][v].clone();
                let src = format!("|===\n{row}|===\n\ny\n");
                cx.check(s.len(), &src, |o| {
                    o.ran();
                    let got = cells(&src)?.concat();
                    o.saw(&got);
                    let s = crate::canon::esc(s);
                    same("the cells", &if v == 0 { format!("cell \"{s}\"\ncell \"x\"\n") } else { format!("cell \"x\"\ncell \"{s}\"\n") }, &got)
                });
            }
        }
    });
    cx.space("pipes that do not start a cell");
    for c in ["a|b", "a||b", "|", "a|", "é|b"] {
        for v in 0..3 {
            if cx.mine() {
                let row = match v {
                    0 => format!("|{c}"),
                    1 => format!("|x |{c}"),
                    _ => format!("|x\n|{c}"),
                };
                let src = format!("|===\n{row}\n|===\n");
                cx.check(2, &src, |o| {
                    o.ran();
                    let got = cells(&src)?.concat();
                    o.saw(&got);
                    let x = if v > 0 { "cell \"x\"\n" } else { "" };
                    same("the cells", &format!("{x}cell \"{c}\"\n"), &got)
                });
            }
        }
    }
    cx.space("text over more than one line");
    for n in 1..=4 {
        seqs(3, n..=n, |v| {
            if cx.mine() {
                let mut w = Words::default();
                let cs: Vec<Vec<String>> = v.iter().map(|&k| (0..k + 1).map(|_| w.s()).collect()).collect();
                let src = format!("[cols={n}]\n|===\n{}|===\n", cs.iter().map(|c| format!("|{}\n", c.join("\n"))).collect::<String>());
                let want: String = cs.iter().map(|c| format!("cell \"{}\"\n", c.join("\\n"))).collect();
                cx.check(n, &src, |o| {
                    o.ran();
                    let got = cells(&src)?.concat();
                    o.saw(&got);
                    same("the cells", &want, &got)
                });
            }
        });
    }
    cx.space("more than one table");
    for a in COLS {
        for b in COLS {
            if cx.mine() {
                let mut w = Words::default();
                let g = grid(a, false, (0..6).map(|_| w.s()).collect(), &[0, 0, 1, 0, 0]);
                let h = grid(b, true, (0..5).map(|_| w.s()).collect(), &[0, 1, 1, 0]);
                let src = format!("{}\n{}", g.src, h.src);
                let (tree, html) = (g.tree() + &h.tree(), g.html() + &h.html());
                cx.check(2, &src, |o| {
                    o.ran();
                    let p = sut::parse(&src)?;
                    same("the trees", &tree, &crate::canon::doc(&sut::json(&p)))?;
                    same("the html", &sut::html_want(&html), &sut::html_body(&p)?)
                });
            }
        }
    }
}
