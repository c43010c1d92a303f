//! Reads Word documents, and writes down what one is expected to have in it.
//!
//! The canonical form has a line for each paragraph, with its style, the kind of list it is an
//! item of and its text with the formatting of each part; tables and images are lines as well.
use crate::model::*;
use asciidocr::{backends::docx::render_docx, graph::asg::Asg};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::Path;

pub type Parts = BTreeMap<String, Vec<u8>>;

/// The files in the document.
pub fn parts(a: &Asg, at: &Path) -> Result<Parts, String> {
    render_docx(a, at).map_err(|e| format!("docx: {e}"))?;
    read_parts(at)
}

pub fn read_parts(at: &Path) -> Result<Parts, String> {
    let file = std::fs::File::open(at).map_err(|e| e.to_string())?;
    let mut zip = zip::ZipArchive::new(file).map_err(|e| format!("not a docx: {e}"))?;
    let mut out = Parts::new();
    for i in 0..zip.len() {
        let mut f = zip.by_index(i).map_err(|e| format!("not a docx: {e}"))?;
        let mut buf = vec![];
        f.read_to_end(&mut buf).map_err(|e| format!("not a docx: {e}"))?;
        if out.insert(f.name().to_string(), buf).is_some() {
            return Err(format!("{} is in the docx twice", f.name()));
        }
    }
    Ok(out)
}

#[derive(Debug, Default, Clone)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
    pub text: String,
}

fn unesc(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#xA;", "\n").replace("&#xD;", "\r").replace("&amp;", "&")
}

impl El {
    pub fn at(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn get(&self, n: &str) -> Option<&El> {
        self.kids.iter().find(|k| k.name == n)
    }
    pub fn val(&self, n: &str) -> Option<&str> {
        self.get(n)?.at("w:val")
    }
    pub fn all<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a El> {
        self.kids.iter().filter(move |k| k.name == n)
    }
    fn deep<'a>(&'a self, n: &str, out: &mut Vec<&'a El>) {
        for k in &self.kids {
            if k.name == n {
                out.push(k);
            }
            k.deep(n, out);
        }
    }
}

/// The root element of an XML file.
pub fn xml(s: &str) -> Result<El, String> {
    let mut stack = vec![El::default()];
    let mut rest = s;
    while let Some(i) = rest.find('<') {
        let top = stack.last_mut().unwrap();
        if !(rest[..i].trim().is_empty() && top.name != "w:t") {
            top.text += &unesc(&rest[..i]);
        }
        rest = &rest[i + 1..];
        let end = rest.find('>').ok_or("not closed")?;
        let tag = &rest[..end];
        rest = &rest[end + 1..];
        if tag.starts_with('?') || tag.starts_with('!') {
            continue;
        }
        if let Some(n) = tag.strip_prefix('/') {
            let e = stack.pop().unwrap();
            if e.name != n.trim() {
                return Err(format!("{} closed as {n}", e.name));
            }
            stack.last_mut().ok_or("closed too often")?.kids.push(e);
            continue;
        }
        let empty = tag.ends_with('/');
        let tag = tag.trim_end_matches('/');
        let name = tag.split_whitespace().next().ok_or("no name")?;
        let mut e = El { name: name.into(), ..El::default() };
        let mut a = tag[name.len()..].trim();
        while let Some((k, v)) = a.split_once("=\"") {
            let (v, r) = v.split_once('"').ok_or("attribute not closed")?;
            e.attrs.push((k.trim().into(), unesc(v)));
            a = r.trim();
        }
        if empty {
            stack.last_mut().unwrap().kids.push(e);
        } else {
            stack.push(e);
        }
    }
    let top = stack.pop().unwrap();
    if !stack.is_empty() || top.kids.len() != 1 {
        return Err("not one element".into());
    }
    Ok(top.kids.into_iter().next().unwrap())
}

fn part<'a>(p: &'a Parts, n: &str) -> Result<&'a str, String> {
    std::str::from_utf8(p.get(n).ok_or(format!("no {n}"))?).map_err(|_| format!("{n} is not text"))
}

struct Reader {
    styles: BTreeSet<String>,
    /// what the number of a list means
    formats: BTreeMap<String, String>,
    lists: Vec<String>,
    images: BTreeMap<String, Vec<u8>>,
    out: Vec<String>,
}

impl Reader {
    fn style(&self, s: &str) -> String {
        match self.styles.contains(s) {
            true => s.split("Paragraph_").next().unwrap().to_string(),
            false => format!("{s}, which is no style"),
        }
    }

    fn para(&mut self, p: &El) {
        let pr = p.get("w:pPr").cloned().unwrap_or_default();
        if pr.get("w:pageBreakBefore").is_some() {
            self.out.push("page break".into());
        }
        let mut runs: Vec<(String, String)> = vec![];
        let mut images = vec![];
        for r in p.all("w:r") {
            let f = r.get("w:rPr").cloned().unwrap_or_default();
            let mut fmt = BTreeSet::new();
            for (n, x) in [("w:b", "bold"), ("w:i", "italic")] {
                if f.get(n).is_some() && f.val(n) != Some("false") {
                    fmt.insert(x.to_string());
                }
            }
            for n in ["w:highlight", "w:vertAlign"] {
                fmt.extend(f.val(n).map(String::from));
            }
            fmt.extend(f.get("w:rFonts").and_then(|f| f.at("w:ascii")).map(String::from));
            let fmt = fmt.into_iter().collect::<Vec<_>>().join(" ");
            for k in &r.kids {
                let text = match k.name.as_str() {
                    "w:t" => k.text.clone(),
                    "w:br" => "⏎".into(),
                    "w:drawing" => {
                        let mut blips = vec![];
                        k.deep("a:blip", &mut blips);
                        for b in blips {
                            let id = b.at("r:embed").unwrap_or("");
                            images.push(self.images.get(id).map(|b| size(b)).unwrap_or(format!("no image {id}")));
                        }
                        continue;
                    }
                    _ => continue,
                };
                add(&mut runs, &fmt, &text);
            }
        }
        for i in images {
            self.out.push(format!("image {i}"));
        }
        if runs.is_empty() {
            return;
        }
        let style = self.style(pr.val("w:pStyle").unwrap_or("Normal"));
        let mut num = String::new();
        if let Some(id) = pr.get("w:numPr").and_then(|n| n.val("w:numId")) {
            let n = match self.lists.iter().position(|l| l == id) {
                Some(n) => n,
                None => {
                    self.lists.push(id.to_string());
                    self.lists.len() - 1
                }
            };
            num = format!(" list {n} {}", self.formats.get(id).map(|s| s.as_str()).unwrap_or("undefined"));
        }
        self.out.push(line(&style, &num, &runs));
    }

    fn blocks(&mut self, e: &El) {
        for k in &e.kids {
            match k.name.as_str() {
                "w:p" => self.para(k),
                "w:tbl" => {
                    self.out.push("table".into());
                    for r in k.all("w:tr") {
                        self.out.push("row".into());
                        for c in r.all("w:tc") {
                            self.out.push("cell".into());
                            self.blocks(c);
                        }
                    }
                    self.out.push("end of table".into());
                }
                _ => {}
            }
        }
    }
}

/// How big a PNG is
fn size(b: &[u8]) -> String {
    match b.get(16..24) {
        Some(s) if b.starts_with(b"\x89PNG") => format!("{}x{}", s[3], s[7]),
        _ => "not a PNG".into(),
    }
}

fn add(runs: &mut Vec<(String, String)>, fmt: &str, text: &str) {
    if text.is_empty() {
        return;
    }
    match runs.last_mut() {
        Some(r) if r.0 == fmt => r.1 += text,
        _ => runs.push((fmt.into(), text.into())),
    }
}

fn line(style: &str, num: &str, runs: &[(String, String)]) -> String {
    // nor are blanks ahead of the end of a line
    let mut seen: Vec<(String, String)> = vec![];
    for (f, t) in runs {
        if t.starts_with('⏎') {
            if let Some(r) = seen.last_mut() {
                r.1.truncate(r.1.trim_end_matches(' ').len());
            }
            seen.retain(|r| !r.1.is_empty());
        }
        add(&mut seen, f, t);
    }
    let mut s = String::new();
    for (f, t) in &seen {
        s += &match f.is_empty() {
            true => t.clone(),
            false => format!("⟨{f}:{t}⟩"),
        };
    }
    // white space around the text of a paragraph isn't seen
    let s = if style == "Monospace" { s.trim_end() } else { s.trim() };
    format!("{style}{num}: {}", s.replace(" ⏎", "⏎"))
}

/// The canonical form of the document, having checked that what it refers to is in it.
pub fn read(p: &Parts) -> Result<String, String> {
    for (n, b) in p {
        if n.ends_with(".xml") || n.ends_with(".rels") {
            let s = std::str::from_utf8(b).map_err(|_| format!("{n} is not text"))?;
            xml(s).map_err(|e| format!("{n}: {e}\n{s}"))?;
        }
    }
    let mut styles = BTreeSet::new();
    let sheet = xml(part(p, "word/styles.xml")?)?;
    for s in sheet.all("w:style") {
        let id = s.at("w:styleId").unwrap_or("").to_string();
        // the library always writes a style of its own for this one
        if !styles.insert(id.clone()) && id != "Normal" {
            return Err(format!("style {id} is there twice"));
        }
    }
    for s in sheet.all("w:style") {
        for k in ["w:basedOn", "w:next", "w:link"] {
            if let Some(b) = s.val(k).filter(|b| !styles.contains(*b)) {
                return Err(format!("{k} {b}, which is no style"));
            }
        }
    }
    let numbering = xml(part(p, "word/numbering.xml")?)?;
    let mut formats = BTreeMap::new();
    for n in numbering.all("w:num") {
        let (id, abs) = (n.at("w:numId").unwrap_or(""), n.val("w:abstractNumId").unwrap_or(""));
        let defs: Vec<&El> = numbering.all("w:abstractNum").filter(|a| a.at("w:abstractNumId") == Some(abs)).collect();
        let users = numbering.all("w:num").filter(|m| m.val("w:abstractNumId") == Some(abs)).count();
        let fmt = match defs[..] {
            [a] => match a.get("w:lvl").and_then(|l| l.val("w:numFmt")) {
                Some("decimal") if users > 1 && n.get("w:lvlOverride").is_none() => "not from one".into(),
                Some("decimal") if a.get("w:lvl").and_then(|l| l.val("w:start")) != Some("1") => "not from one".into(),
                f => f.unwrap_or("nothing").to_string(),
            },
            [] => "undefined".into(),
            _ => "defined twice".into(),
        };
        if formats.insert(id.to_string(), fmt).is_some() {
            formats.insert(id.to_string(), "there twice".into());
        }
    }
    let mut images = BTreeMap::new();
    for r in xml(part(p, "word/_rels/document.xml.rels")?)?.all("Relationship") {
        if let (Some(id), Some(t)) = (r.at("Id"), r.at("Target")) {
            if let Some(b) = p.get(&format!("word/{t}")) {
                images.insert(id.to_string(), b.clone());
            }
        }
    }
    let doc = xml(part(p, "word/document.xml")?)?;
    let mut r = Reader { styles, formats, lists: vec![], images, out: vec![] };
    r.blocks(doc.get("w:body").ok_or("no body")?);
    Ok(r.out.iter().map(|l| format!("{l}\n")).collect())
}

/// Writes down what the Word document is expected to have.
#[derive(Default)]
pub struct Want {
    page: bool,
    lists: usize,
    out: Vec<String>,
    /// what images are shown as, for each target
    pub images: Vec<(String, String)>,
}

fn runs(v: &[I], fmt: &[Sp], foot: bool, lines: bool, out: &mut Vec<(String, String)>) {
    for i in v {
        let name = || {
            let mut s = BTreeSet::new();
            // of those that exclude each other, the innermost
            let (mut light, mut vert) = (foot.then_some("blue"), None);
            for f in fmt {
                match f {
                    Sp::Strong => _ = s.insert("bold"),
                    Sp::Em => _ = s.insert("italic"),
                    Sp::Code => _ = s.insert("Courier New"),
                    Sp::Mark => light = Some("yellow"),
                    Sp::Sup => vert = Some("superscript"),
                    Sp::Sub => vert = Some("subscript"),
                }
            }
            s.extend(light);
            s.extend(vert);
            s.into_iter().collect::<Vec<_>>().join(" ")
        };
        match i {
            I::T(x) | I::R(_, x) | I::Raw(x) => add(out, &name(), &if lines { x.replace('\n', "⏎") } else { x.replace('\n', " ") }),
            I::S(k, _, _, v) => runs(v, &[fmt, &[*k]].concat(), foot, lines, out),
            I::Link(u, v) if v.is_empty() => add(out, &name(), u),
            I::Bare(u) => add(out, &name(), u),
            I::Xref(id, v) if v.is_empty() => add(out, &name(), id),
            I::Link(_, v) | I::Xref(_, v) => runs(v, fmt, foot, lines, out),
            I::Fn(v) => runs(v, fmt, true, lines, out),
            I::Img(x) => add(out, &name(), x),
            I::Br => add(out, "", "⏎"),
        }
    }
}

impl Want {
    fn put(&mut self, s: String) {
        if std::mem::take(&mut self.page) {
            self.out.push("page break".into());
        }
        self.out.push(s);
    }

    fn p(&mut self, style: &str, i: &[I]) {
        self.full(style, "", i, false);
    }

    fn full(&mut self, style: &str, num: &str, i: &[I], lines: bool) {
        let mut r = vec![];
        runs(i, &[], false, lines, &mut r);
        if !r.is_empty() {
            self.put(line(style, num, &r));
        }
    }

    fn lines(&mut self, style: &str, v: &[String]) {
        self.full(style, "", &t(&v.join("\n")), true)
    }

    pub fn blocks(&mut self, v: &[Blk], style: &str) {
        for b in v {
            self.block(b, style);
        }
    }

    fn block(&mut self, b: &Blk, style: &str) {
        let own = matches!(&b.b, B::Parent(Par::Example | Par::Sidebar, _) | B::AdmonPara(..) | B::AdmonBlock(..) | B::Image(..) | B::Sec(..));
        if let Some(t) = b.title.as_ref().filter(|_| !own) {
            self.p(style, t);
        }
        match &b.b {
            B::Para(i) => self.p(style, i),
            B::Sec(l, t, v) => {
                self.p(&format!("Heading {l}"), t);
                self.blocks(v, "Normal");
            }
            B::List(m, items) => {
                let n = self.lists;
                self.lists += 1;
                let (style, fmt) = if m == "*" { ("ListParagraph", "bullet") } else { ("Numbered", "decimal") };
                let style = if style == "Numbered" { "NumberedList" } else { style };
                for it in items {
                    self.full(style, &format!(" list {n} {fmt}"), &it.principal, false);
                    self.attached(&it.attached);
                    self.attached(&it.nested);
                }
            }
            B::DList(items) => {
                for it in items {
                    self.p("Definition Term", &it.term);
                    self.p("Definition", it.principal.as_deref().unwrap_or_default());
                    self.blocks(&it.attached, "Definition");
                    self.blocks(&it.nested, "Definition");
                }
            }
            B::Parent(Par::Open, v) => self.blocks(v, style),
            B::Parent(Par::Quote, v) => {
                self.blocks(v, "Quote");
                self.by(b, "Quote");
            }
            B::QuotePara(i, a, c) => {
                self.p("Quote", i);
                if let Some(a) = a {
                    let c = c.as_ref().map(|c| format!(", {c}")).unwrap_or_default();
                    self.p("Quote", &t(&format!("— {a}{c}")));
                }
            }
            B::Parent(k, v) => {
                let name = if *k == Par::Example { "Example" } else { "Sidebar" };
                self.named(name, None, b, |w, s| w.blocks(v, s));
            }
            B::AdmonPara(k, i) => self.named("Admonition", Some(k), b, |w, s| w.p(s, i)),
            B::AdmonBlock(k, v) => self.named("Admonition", Some(k), b, |w, _| w.blocks(v, "Example Text")),
            B::Leaf(Leaf::Pass, v) => self.p(style, &t(&v.join("\n"))),
            B::Leaf(_, v) | B::Source(_, v) => self.lines("Monospace", v),
            B::Verse(v) => {
                self.full("Verse", "", &v.join(&I::T("\n".into())), true);
                self.by(b, "Verse");
            }
            B::Image(x, _) => {
                let i = self.images.iter().find(|i| i.0 == *x).map(|i| i.1.clone()).unwrap_or_default();
                self.put(format!("image {i}"));
                if let Some(t) = &b.title {
                    self.p(style, t);
                }
            }
            B::Break(true) => self.page = true,
            B::Break(false) => self.p("Thematic Break", &t("#")),
            B::Table { rows, .. } => {
                self.put("table".into());
                for r in rows {
                    self.put("row".into());
                    for c in r {
                        self.put("cell".into());
                        self.p("Table", c);
                    }
                }
                self.put("end of table".into());
            }
            B::CommentLine(_) | B::CommentBlock(_) => {}
        }
    }

    fn by(&mut self, b: &Blk, style: &str) {
        let get = |k: &str| b.attrs.iter().find(|a| a.0 == k).map(|a| a.1.clone());
        if let Some(a) = get("attribution") {
            let c = get("citation").map(|c| format!(", {c}")).unwrap_or_default();
            self.p(style, &t(&format!("— {a}{c}")));
        }
    }

    fn named(&mut self, name: &str, label: Option<&str>, b: &Blk, inner: impl FnOnce(&mut Want, &str)) {
        let head = format!("{name} Title");
        if let Some(l) = label {
            self.p(&head, &t(&format!("{}{}", l[..1].to_uppercase(), &l[1..])));
        }
        if let Some(t) = &b.title {
            self.p(&head, t);
        }
        inner(self, &format!("{name} Text"));
    }

    /// Text in a list item, also of the lists in it, is a continuation of the item.
    fn attached(&mut self, v: &[Blk]) {
        let s = "ListParagraphContinue";
        for b in v {
            if !matches!(b.b, B::Para(_) | B::List(..) | B::DList(_) | B::Leaf(..) | B::Source(..) | B::Verse(_)) {
                self.block(b, s);
                continue;
            }
            if let Some(t) = &b.title {
                self.p(s, t);
            }
            match &b.b {
                B::Para(i) => self.p(s, i),
                B::List(_, items) => {
                    for it in items {
                        self.p(s, &it.principal);
                        self.attached(&it.attached);
                        self.attached(&it.nested);
                    }
                }
                B::DList(items) => {
                    for it in items {
                        self.p(s, &it.term);
                        self.p(s, it.principal.as_deref().unwrap_or_default());
                        self.attached(&it.attached);
                        self.attached(&it.nested);
                    }
                }
                B::Leaf(Leaf::Pass, v) => self.p(s, &t(&v.join("\n"))),
                B::Leaf(_, v) | B::Source(_, v) => self.lines(s, v),
                B::Verse(v) => {
                    self.full(s, "", &v.join(&I::T("\n".into())), true);
                    self.by(b, s);
                }
                _ => unreachable!(),
            }
        }
    }

    pub fn title(&mut self, i: &[I]) {
        self.p("Title", i);
    }

    pub fn text(self) -> String {
        self.out.iter().map(|l| format!("{l}\n")).collect()
    }
}
