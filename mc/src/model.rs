//! Abstract documents: the reference side of the structural checks.
//!
//! A `Blk` can be written out as AsciiDoc (`source`), as the canonical tree the parser is expected
//! to produce (`canon_all`), and as the HTML that tree is expected to become (`html_all`). None of
//! these looks at the implementation; they encode what the AsciiDoc language and HTMLBook say.
use crate::canon::esc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sp {
    Strong,
    Em,
    Code,
    Mark,
    Sup,
    Sub,
}

impl Sp {
    pub const ALL: [Sp; 6] = [Sp::Strong, Sp::Em, Sp::Code, Sp::Mark, Sp::Sup, Sp::Sub];
    pub fn mark(self) -> &'static str {
        match self {
            Sp::Strong => "*",
            Sp::Em => "_",
            Sp::Code => "`",
            Sp::Mark => "#",
            Sp::Sup => "^",
            Sp::Sub => "~",
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Sp::Strong => "strong",
            Sp::Em => "emphasis",
            Sp::Code => "code",
            Sp::Mark => "mark",
            Sp::Sup => "superscript",
            Sp::Sub => "subscript",
        }
    }
    pub fn tag(self) -> &'static str {
        match self {
            Sp::Strong => "strong",
            Sp::Em => "em",
            Sp::Code => "code",
            Sp::Mark => "span",
            Sp::Sup => "sup",
            Sp::Sub => "sub",
        }
    }
}

#[derive(Clone, Debug)]
pub enum I {
    /// Plain text; what is written is what is meant
    T(String),
    /// Written as the first, means the second
    R(String, String),
    /// A span: kind, doubled marks, roles, contents
    S(Sp, bool, Vec<String>, Vec<I>),
    /// A URL followed by text in brackets
    Link(String, Vec<I>),
    Bare(String),
    /// A cross reference: the id, the text in brackets (if any), the text it resolves to
    Xref(String, Vec<I>),
    Fn(Vec<I>),
    Img(String),
    /// A hard line break
    Br,
    /// Inline passthrough
    Raw(String),
}

pub type Inls = Vec<I>;

pub fn t(s: &str) -> Inls {
    vec![I::T(s.into())]
}

pub fn html_esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

pub fn inl_src(v: &[I]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            I::T(x) => s += x,
            I::R(x, _) => s += x,
            I::S(k, un, roles, v) => {
                if !roles.is_empty() {
                    s += &format!("[{}]", roles.iter().map(|r| format!(".{r}")).collect::<String>());
                }
                let m = if *un { k.mark().repeat(2) } else { k.mark().to_string() };
                s += &format!("{m}{}{m}", inl_src(v));
            }
            I::Link(u, v) => s += &format!("{u}[{}]", inl_src(v)),
            I::Bare(u) => s += u,
            I::Xref(id, _) => s += &format!("<<{id}>>"),
            I::Fn(v) => s += &format!("footnote:[{}]", inl_src(v)),
            I::Img(x) => s += &format!("image:{x}[]"),
            I::Br => s += " +\n",
            I::Raw(x) => s += &format!("pass:[{x}]"),
        }
    }
    s
}

pub fn inl_canon(v: &[I]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            I::T(x) => s += x,
            I::R(_, x) => s += x,
            I::S(k, un, roles, v) => {
                let m = if roles.is_empty() {
                    String::new()
                } else {
                    format!(" [{}]", roles.iter().map(|r| format!(".{r}")).collect::<Vec<_>>().join(" "))
                };
                s += &format!("⟨{}{}{m}:{}⟩", k.name(), if *un { "!" } else { "" }, inl_canon(v));
            }
            I::Link(u, v) => s += &format!("⟨link {u}|{}⟩", inl_canon(v)),
            I::Bare(u) => s += &format!("⟨link {u}|⟩"),
            I::Xref(id, v) => s += &format!("⟨xref {id}|{}⟩", inl_canon(v)),
            I::Fn(v) => s += &format!("⟨footnote:{}⟩", inl_canon(v)),
            I::Img(x) => s += &format!("⟨image {x}|⟩"),
            I::Br => s += "⟨br⟩",
            I::Raw(x) => s += x,
        }
    }
    s
}

pub fn inl_html(v: &[I]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            I::T(x) => s += &html_esc(x),
            I::R(_, x) => s += &html_esc(x),
            I::S(k, _, roles, v) => {
                let c = if roles.is_empty() { String::new() } else { format!(" class=\"{}\"", roles.join(" ")) };
                s += &format!("<{}{c}>{}</{}>", k.tag(), inl_html(v), k.tag());
            }
            I::Link(u, v) if !v.is_empty() => s += &format!("<a href=\"{}\">{}</a>", html_esc(u), inl_html(v)),
            I::Link(u, _) | I::Bare(u) => s += &format!("<a href=\"{0}\">{0}</a>", html_esc(u)),
            I::Xref(id, v) if v.is_empty() => s += &format!("<a href=\"#{id}\">#{id}</a>"),
            I::Xref(id, v) => s += &format!("<a href=\"#{id}\">{}</a>", inl_html(v)),
            I::Fn(v) => s += &format!("<span data-type=\"footnote\">{}</span>", inl_html(v)),
            I::Img(x) => s += &format!("<img src=\"{x}\" />"),
            I::Br => s += "<br />",
            I::Raw(x) => s += x,
        }
    }
    s
}

/// The words a reader sees, in reading order.
pub fn inl_text(v: &[I]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            I::T(x) | I::R(_, x) | I::Raw(x) => s += x,
            I::S(_, _, _, v) | I::Fn(v) => s += &inl_text(v),
            I::Link(_, v) | I::Xref(_, v) => s += &inl_text(v),
            I::Bare(_) | I::Img(_) => {}
            I::Br => s.push('\n'),
        }
    }
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Leaf {
    Listing,
    Literal,
    Pass,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Par {
    Example,
    Sidebar,
    Open,
    Quote,
}

impl Par {
    pub const ALL: [Par; 4] = [Par::Example, Par::Sidebar, Par::Open, Par::Quote];
    pub fn delim(self) -> &'static str {
        match self {
            Par::Example => "====",
            Par::Sidebar => "****",
            Par::Open => "--",
            Par::Quote => "____",
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Item {
    pub principal: Inls,
    /// blocks attached by a continuation
    pub attached: Vec<Blk>,
    /// lists written directly underneath
    pub nested: Vec<Blk>,
}

#[derive(Clone, Debug)]
pub struct DItem {
    pub term: Inls,
    pub principal: Option<Inls>,
    pub attached: Vec<Blk>,
    pub nested: Vec<Blk>,
}

#[derive(Clone, Debug)]
pub enum B {
    Para(Inls),
    Sec(usize, Inls, Vec<Blk>),
    /// marker, items; the marker says what kind of list it is
    List(String, Vec<Item>),
    DList(Vec<DItem>),
    Parent(Par, Vec<Blk>),
    AdmonPara(&'static str, Inls),
    AdmonBlock(&'static str, Vec<Blk>),
    Leaf(Leaf, Vec<String>),
    Source(String, Vec<String>),
    /// the lines of the verse
    Verse(Vec<Inls>),
    Image(String, String),
    Break(bool),
    Table { cols: Option<String>, ncols: usize, rows: Vec<Vec<Inls>>, same_line: bool, header: bool },
    CommentLine(String),
    CommentBlock(Vec<String>),
    QuotePara(Inls, Option<String>, Option<String>),
}

#[derive(Clone, Debug)]
pub struct Blk {
    pub id: Option<String>,
    pub role: Option<String>,
    pub title: Option<Inls>,
    /// attributes that only the graph has
    pub attrs: Vec<(String, String)>,
    /// how the lines ahead of the block are written, if not the usual way
    pub pre: Option<String>,
    pub b: B,
}

impl From<B> for Blk {
    fn from(b: B) -> Self {
        Blk { id: None, role: None, title: None, attrs: vec![], pre: None, b }
    }
}

pub fn para(s: &str) -> Blk {
    B::Para(t(s)).into()
}

impl Blk {
    /// Every place with inline text, in document order.
    pub fn each_inls(&mut self, f: &mut dyn FnMut(&mut Inls)) {
        if let Some(t) = &mut self.title {
            f(t);
        }
        let kids = |v: &mut Vec<Blk>, f: &mut dyn FnMut(&mut Inls)| v.iter_mut().for_each(|b| b.each_inls(f));
        match &mut self.b {
            B::Para(i) | B::AdmonPara(_, i) | B::QuotePara(i, _, _) => f(i),
            B::Sec(_, t, v) => {
                f(t);
                kids(v, f);
            }
            B::List(_, items) => {
                for it in items {
                    f(&mut it.principal);
                    kids(&mut it.attached, f);
                    kids(&mut it.nested, f);
                }
            }
            B::DList(items) => {
                for it in items {
                    f(&mut it.term);
                    it.principal.iter_mut().for_each(&mut *f);
                    kids(&mut it.attached, f);
                    kids(&mut it.nested, f);
                }
            }
            B::Parent(_, v) | B::AdmonBlock(_, v) => kids(v, f),
            B::Verse(v) => v.iter_mut().for_each(f),
            B::Table { rows, .. } => rows.iter_mut().flatten().for_each(f),
            B::Leaf(..) | B::Source(..) | B::Image(..) | B::Break(_) | B::CommentLine(_) | B::CommentBlock(_) => {}
        }
    }
}

/// What was written, and on which lines each block is.
#[derive(Default)]
pub struct Writer {
    pub out: String,
    line: usize,
    /// (kind, first line, last line), in document order
    pub spans: Vec<(String, usize, usize)>,
}

impl Writer {
    fn put(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out += s;
    }

    pub fn blocks(&mut self, v: &[Blk], sep: &str) {
        for (i, b) in v.iter().enumerate() {
            if i > 0 {
                self.put(sep);
            }
            self.block(b);
        }
    }

    fn attached(&mut self, v: &[Blk]) {
        for b in v {
            self.put("\n+\n");
            self.block(b);
        }
    }

    fn fenced(&mut self, d: &str, v: &[Blk]) {
        self.put(d);
        self.put("\n");
        if !v.is_empty() {
            self.blocks(v, "\n\n");
            self.put("\n");
        }
        self.put(d);
    }

    fn verbatim(&mut self, d: &str, v: &[String]) {
        self.put(d);
        self.put("\n");
        for l in v {
            self.put(l);
            self.put("\n");
        }
        self.put(d);
    }

    pub fn block(&mut self, b: &Blk) {
        match &b.pre {
            Some(pre) => self.put(pre),
            None => {
                if let Some(id) = &b.id {
                    self.put(&format!("[[{id}]]\n"));
                }
                if let Some(r) = &b.role {
                    self.put(&format!("[role=\"{r}\"]\n"));
                }
                if let Some(t) = &b.title {
                    self.put(&format!(".{}\n", inl_src(t)));
                }
                self.put(&b.style());
            }
        }
        let at = self.spans.len();
        self.spans.push((b.kind().to_string(), self.line + 1, 0));
        match &b.b {
            B::Para(i) | B::QuotePara(i, ..) => self.put(&inl_src(i)),
            B::Sec(l, t, v) => {
                self.put(&format!("{} {}", "=".repeat(l + 1), inl_src(t)));
                for b in v {
                    self.put("\n\n");
                    self.block(b);
                }
            }
            B::List(marker, items) => {
                for (i, it) in items.iter().enumerate() {
                    if i > 0 {
                        self.put("\n");
                    }
                    let m = marker.replace('N', &(i + 1).to_string());
                    self.put(&format!("{m} {}", inl_src(&it.principal)));
                    self.attached(&it.attached);
                    for n in &it.nested {
                        self.put("\n");
                        self.block(n);
                    }
                }
            }
            B::DList(items) => {
                for (i, it) in items.iter().enumerate() {
                    if i > 0 {
                        self.put("\n");
                    }
                    self.put(&format!("{}::", inl_src(&it.term)));
                    if let Some(p) = &it.principal {
                        self.put(&format!(" {}", inl_src(p)));
                    }
                    self.attached(&it.attached);
                    for n in &it.nested {
                        self.put("\n");
                        self.block(n);
                    }
                }
            }
            B::Parent(k, v) => self.fenced(k.delim(), v),
            B::AdmonPara(k, i) => self.put(&format!("{}: {}", k.to_uppercase(), inl_src(i))),
            B::AdmonBlock(_, v) => self.fenced("====", v),
            B::Leaf(k, v) => self.verbatim(
                match k {
                    Leaf::Listing => "----",
                    Leaf::Literal => "....",
                    Leaf::Pass => "++++",
                },
                v,
            ),
            B::Source(_, v) => self.verbatim("----", v),
            B::Verse(v) => {
                let lines: Vec<String> = v.iter().map(|i| inl_src(i)).collect();
                self.verbatim("____", &lines)
            }
            B::Image(t, alt) => self.put(&format!("image::{t}[{alt}]")),
            B::Break(page) => self.put(if *page { "<<<" } else { "'''" }),
            B::Table { rows, same_line, .. } => {
                self.put("|===\n");
                for r in rows {
                    let cells: Vec<String> = r.iter().map(|c| format!("|{}", inl_src(c))).collect();
                    self.put(&cells.join(if *same_line { " " } else { "\n" }));
                    self.put("\n");
                }
                self.put("|===");
            }
            B::CommentLine(c) => self.put(&format!("//{c}")),
            B::CommentBlock(v) => self.verbatim("////", v),
        }
        self.spans[at].2 = self.line + 1;
    }
}

/// The document as AsciiDoc, blocks separated by a blank line.
pub fn source(v: &[Blk]) -> String {
    let mut w = Writer::default();
    w.blocks(v, "\n\n");
    w.put("\n");
    w.out
}

impl Blk {
    pub fn kind(&self) -> &'static str {
        match &self.b {
            B::Para(_) => "paragraph",
            B::Sec(..) => "section",
            B::List(..) => "list",
            B::DList(_) => "dlist",
            B::Parent(k, _) => match k {
                Par::Example => "example",
                Par::Sidebar => "sidebar",
                Par::Open => "open",
                Par::Quote => "quote",
            },
            B::AdmonPara(..) | B::AdmonBlock(..) => "admonition",
            B::Leaf(k, _) => match k {
                Leaf::Listing => "listing",
                Leaf::Literal => "literal",
                Leaf::Pass => "pass",
            },
            B::Source(..) => "listing",
            B::Verse(_) => "verse",
            B::Image(..) => "image",
            B::Break(_) => "break",
            B::Table { .. } => "table",
            B::CommentLine(_) | B::CommentBlock(_) => "comment",
            B::QuotePara(..) => "quote",
        }
    }

    /// The line that makes the block what it is, if there is one
    pub fn style(&self) -> String {
        match &self.b {
            B::AdmonBlock(k, _) => format!("[{}]\n", k.to_uppercase()),
            B::Source(l, _) => format!("[source,{l}]\n"),
            B::Verse(_) => "[verse]\n".into(),
            B::QuotePara(_, a, c) => {
                let mut s = "[quote".to_string();
                for x in [a, c].into_iter().flatten() {
                    s += &format!(",{x}");
                }
                s + "]\n"
            }
            B::Table { cols: Some(c), .. } => format!("[cols=\"{c}\"]\n"),
            _ => String::new(),
        }
    }

    pub fn with(mut self, id: Option<&str>, role: Option<&str>, title: Option<&str>) -> Blk {
        self.id = id.map(|s| s.into());
        self.role = role.map(|s| s.into());
        self.title = title.map(t);
        self
    }

    fn meta(&self, extra: &[String], options: &[&str]) -> String {
        let mut parts: Vec<String> = extra.to_vec();
        parts.extend(self.attrs.iter().map(|(k, v)| format!("{k}={v}")));
        if let Some(i) = &self.id {
            parts.push(format!("id={i}"));
        }
        parts.sort_by(|a, b| a.split('=').next().cmp(&b.split('=').next()));
        if let Some(r) = &self.role {
            parts.extend(r.split(' ').map(|x| format!(".{x}")));
        }
        parts.extend(options.iter().map(|o| format!("%{o}")));
        if parts.is_empty() {
            String::new()
        } else {
            format!(" [{}]", parts.join(" "))
        }
    }

    pub fn canon(&self, ind: usize, out: &mut String) {
        let pad = "  ".repeat(ind);
        let title = match &self.title {
            Some(t) => format!(" title=\"{}\"", esc(&inl_canon(t))),
            None => String::new(),
        };
        let q = |i: &[I]| format!("\"{}\"", esc(&inl_canon(i)));
        let mut extra: Vec<String> = vec![];
        let mut options: Vec<&str> = vec![];
        let mut kids: &[Blk] = &[];
        let mut sub = String::new();
        let head = match &self.b {
            B::Para(i) => format!("para {}", q(i)),
            B::Sec(l, t, v) => {
                kids = v;
                format!("section {l} {}", q(t))
            }
            B::List(m, items) => {
                let ordered = m.starts_with('.') || m.starts_with('<');
                for (i, it) in items.iter().enumerate() {
                    let m = m.replace('N', &(i + 1).to_string());
                    sub += &format!("{pad}  item {m} {}\n", q(&it.principal));
                    for b in it.attached.iter().chain(&it.nested) {
                        b.canon(ind + 2, &mut sub);
                    }
                }
                format!("list {}", if ordered { "ordered" } else { "unordered" })
            }
            B::DList(items) => {
                for it in items {
                    let p = it.principal.as_deref().map(q).unwrap_or("\"\"".into());
                    sub += &format!("{pad}  ditem {} {p}\n", q(&it.term));
                    for b in it.attached.iter().chain(&it.nested) {
                        b.canon(ind + 2, &mut sub);
                    }
                }
                "dlist".into()
            }
            B::Parent(_, v) => {
                kids = v;
                self.kind().into()
            }
            B::AdmonPara(k, i) => {
                sub = format!("{pad}  para {}\n", q(i));
                format!("admonition {k}")
            }
            B::AdmonBlock(k, v) => {
                kids = v;
                format!("admonition {k}")
            }
            B::Leaf(_, v) => format!("{} \"{}\"", self.kind(), esc(&v.join("\n"))),
            B::Source(l, v) => {
                if !l.is_empty() {
                    extra.push(format!("language={l}"));
                }
                format!("listing \"{}\"", esc(&v.join("\n")))
            }
            B::Verse(v) => {
                let lines: Vec<String> = v.iter().map(|i| inl_canon(i)).collect();
                format!("verse \"{}\"", esc(&lines.join("\n")))
            }
            B::Image(t, alt) => {
                if !alt.is_empty() {
                    extra.push(format!("positional_1={alt}"));
                }
                format!("image {t}")
            }
            B::Break(page) => format!("break {}", if *page { "page" } else { "thematic" }),
            B::Table { rows, header, ncols, .. } => {
                extra.push(format!("cols={ncols}"));
                if *header {
                    options.push("header");
                }
                for c in rows.iter().flatten() {
                    sub += &format!("{pad}  cell {}\n", q(c));
                }
                "table".into()
            }
            B::CommentLine(_) | B::CommentBlock(_) => return,
            B::QuotePara(i, a, c) => {
                if let Some(a) = a {
                    extra.push(format!("attribution={a}"));
                }
                if let Some(c) = c {
                    extra.push(format!("citation={c}"));
                }
                sub = format!("{pad}  para {}\n", q(i));
                "quote".into()
            }
        };
        let mut m = self.meta(&extra, &options);
        if matches!(&self.b, B::List(k, _) if k.starts_with('<')) {
            m = if m.is_empty() { " [.colist]".into() } else { format!("{} .colist]", &m[..m.len() - 1]) };
        }
        out.push_str(&format!("{pad}{head}{title}{m}\n{sub}"));
        for b in kids {
            b.canon(ind + 1, out);
        }
    }

    fn attrs(&self, extra: &[(&str, &str)]) -> String {
        let mut v: Vec<(String, String)> = extra.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        if let Some(i) = &self.id {
            v.push(("id".into(), i.clone()));
        }
        let mut roles: Vec<&str> = self.role.as_deref().map(|r| r.split(' ').collect()).unwrap_or_default();
        if matches!(&self.b, B::List(k, _) if k.starts_with('<')) {
            roles.push("colist");
        }
        if !roles.is_empty() {
            v.push(("class".into(), roles.join(" ")));
        }
        v.iter().map(|(k, v)| format!(" {k}=\"{}\"", html_esc(v).replace('"', "&quot;"))).collect()
    }

    /// Who the quote or verse is by, if that is one of the attributes
    fn by(&self) -> String {
        let get = |k: &str| self.attrs.iter().find(|a| a.0 == k).map(|a| html_esc(&a.1));
        match (get("attribution"), get("citation")) {
            (Some(a), c) => format!("<p data-type=\"attribution\">{a}{}</p>", c.map(|c| format!(", {c}")).unwrap_or_default()),
            _ => String::new(),
        }
    }

    /// The HTMLBook this block should become.
    pub fn html(&self, out: &mut String) {
        let h = |l: u8| match &self.title {
            Some(t) => format!("<h{l}>{}</h{l}>", inl_html(t)),
            None => String::new(),
        };
        let kids = |v: &[Blk], out: &mut String| v.iter().for_each(|b| b.html(out));
        match &self.b {
            B::Para(i) => *out += &format!("{}<p{}>{}</p>", h(5), self.attrs(&[]), inl_html(i)),
            B::Sec(l, t, v) => {
                let ty = format!("sect{l}");
                *out += &format!("<section{}><h1>{}</h1>", self.attrs(&[("data-type", &ty)]), inl_html(t));
                kids(v, out);
                *out += "</section>";
            }
            B::List(m, items) => {
                let tag = if m.starts_with('.') || m.starts_with('<') { "ol" } else { "ul" };
                *out += &format!("{}<{tag}{}>", h(5), self.attrs(&[]));
                for it in items {
                    *out += &format!("<li><p>{}</p>", inl_html(&it.principal));
                    kids(&it.attached, out);
                    kids(&it.nested, out);
                    *out += "</li>";
                }
                *out += &format!("</{tag}>");
            }
            B::DList(items) => {
                *out += &format!("{}<dl{}>", h(5), self.attrs(&[]));
                for it in items {
                    *out += &format!("<dt>{}</dt><dd>", inl_html(&it.term));
                    if let Some(p) = &it.principal {
                        *out += &format!("<p>{}</p>", inl_html(p));
                    }
                    kids(&it.attached, out);
                    kids(&it.nested, out);
                    *out += "</dd>";
                }
                *out += "</dl>";
            }
            B::Parent(k, v) => {
                let (tag, ty, l): (&str, &[(&str, &str)], u8) = match k {
                    Par::Example => ("div", &[], 5),
                    Par::Sidebar => ("aside", &[("data-type", "sidebar")], 5),
                    Par::Open => ("div", &[], 1),
                    Par::Quote => ("blockquote", &[], 1),
                };
                *out += &format!("<{tag}{}>{}", self.attrs(ty), h(l));
                kids(v, out);
                *out += &format!("{}</{tag}>", self.by());
            }
            B::AdmonPara(k, i) => {
                *out += &format!("<div{}>{}<p>{}</p></div>", self.attrs(&[("data-type", k)]), h(1), inl_html(i))
            }
            B::AdmonBlock(k, v) => {
                *out += &format!("<div{}>{}", self.attrs(&[("data-type", k)]), h(1));
                kids(v, out);
                *out += "</div>";
            }
            B::Leaf(Leaf::Pass, v) => *out += &format!("{}\n{}\n", h(5), v.join("\n")),
            B::Leaf(_, v) => *out += &format!("{}<pre{}>\n{}\n</pre>", h(5), self.attrs(&[]), html_esc(&v.join("\n"))),
            B::Source(l, v) => {
                let a: &[(&str, &str)] = if l.is_empty() { &[] } else { &[("data-code-language", l)] };
                *out += &format!("{}<pre{}>\n{}\n</pre>", h(5), self.attrs(a), html_esc(&v.join("\n")))
            }
            B::Verse(v) => {
                let lines: Vec<String> = v.iter().map(|i| inl_html(i)).collect();
                *out += &format!("{}<pre{}>{}</pre>{}", h(5), self.attrs(&[("data-type", "verse")]), lines.join("\n"), self.by())
            }
            B::Image(t, alt) => {
                let alt = if alt.is_empty() { String::new() } else { format!(" alt=\"{}\"", html_esc(alt).replace('"', "&quot;")) };
                let cap = match &self.title {
                    Some(t) => format!("<figcaption>{}</figcaption>", inl_html(t)),
                    None => String::new(),
                };
                let t = html_esc(t).replace('"', "&quot;");
                *out += &format!("<figure{}><img src=\"{t}\"{alt} />{cap}</figure>", self.attrs(&[]))
            }
            B::Break(true) => *out += "<div style=\"page-break-after: always;\"></div>",
            B::Break(false) => *out += "<hr />",
            B::Table { rows, header, .. } => {
                *out += &format!("<table{}>", self.attrs(&[]));
                if let Some(t) = &self.title {
                    *out += &format!("<caption>{}</caption>", inl_html(t));
                }
                // HTMLBook tables here have their header cells directly in the head
                let cells = |r: &Vec<Inls>, tag: &str| -> String {
                    r.iter().map(|c| format!("<{tag}>{}</{tag}>", inl_html(c))).collect()
                };
                let mut body = &rows[..];
                if *header {
                    *out += &format!("<thead>{}</thead><tbody>", cells(&rows[0], "th"));
                    body = &rows[1..];
                }
                for r in body {
                    *out += &format!("<tr>{}</tr>", cells(r, "td"));
                }
                if *header {
                    *out += "</tbody>";
                }
                *out += "</table>";
            }
            B::CommentLine(_) | B::CommentBlock(_) => {}
            B::QuotePara(i, a, c) => {
                *out += &format!("<blockquote{}>{}<p>{}</p>", self.attrs(&[]), h(1), inl_html(i));
                if let Some(a) = a {
                    let c = c.as_ref().map(|c| format!(", {}", html_esc(c))).unwrap_or_default();
                    *out += &format!("<p data-type=\"attribution\">{}{c}</p>", html_esc(a));
                }
                *out += "</blockquote>";
            }
        }
    }
}

pub fn canon_all(v: &[Blk]) -> String {
    let mut s = String::new();
    for b in v {
        b.canon(0, &mut s);
    }
    s
}

pub fn html_all(v: &[Blk]) -> String {
    let mut s = String::new();
    for b in v {
        b.html(&mut s);
    }
    s
}
