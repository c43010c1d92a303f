use crate::engine::Prop;
use crate::model::*;

mod p01_total;
mod p02_tokens;
mod p03_blocks;
mod p04_sections;
mod p05_lists;
mod p06_verbatim;
mod p07_comments;
mod p08_spans;
mod p09_text;
mod p10_attributes;
mod p11_includes;
mod p12_lines;
mod p13_tables;
mod p14_xrefs;
mod p15_footnotes;
mod p16_metadata;
mod p17_html;
mod p18_same;
mod p19_locations;
mod p20_docx;
mod p21_cli;
mod p22_count;
mod p23_symbols;
mod p24_targets;
mod p25_graph;

pub const ALL: &[Prop] = &[
    ("P01", p01_total::run),
    ("P02", p02_tokens::run),
    ("P03", p03_blocks::run),
    ("P04", p04_sections::run),
    ("P05", p05_lists::run),
    ("P06", p06_verbatim::run),
    ("P07", p07_comments::run),
    ("P08", p08_spans::run),
    ("P09", p09_text::run),
    ("P10", p10_attributes::run),
    ("P11", p11_includes::run),
    ("P12", p12_lines::run),
    ("P13", p13_tables::run),
    ("P14", p14_xrefs::run),
    ("P15", p15_footnotes::run),
    ("P16", p16_metadata::run),
    ("P17", p17_html::run),
    ("P18", p18_same::run),
    ("P19", p19_locations::run),
    ("P20", p20_docx::run),
    ("P21", p21_cli::run),
    ("P22", p22_count::run),
    ("P23", p23_symbols::run),
    ("P24", p24_targets::run),
    ("P25", p25_graph::run),
];

pub use p18_same::outputs;

/// Calls `f` with every sequence over `0..n` of each length in `lens`, shortest first.
pub fn seqs(n: usize, lens: std::ops::RangeInclusive<usize>, mut f: impl FnMut(&[usize])) {
    for len in lens {
        let mut v = vec![0; len];
        'all: loop {
            f(&v);
            for i in (0..len).rev() {
                v[i] += 1;
                if v[i] < n {
                    continue 'all;
                }
                v[i] = 0;
            }
            break;
        }
    }
}

/// What would be something at the start of a line, or is next to something that is; in the middle of one it is text.
const ODD: [&str; 18] =
    ["w", " ", ":: ", "::", "NOTE: ", "* ", ". ", "|", "//", "<1>", "<1> ", "[x]", "=", ":a: ", "- ", "1. ", "image::", "é"];

/// Calls `f` with every text of up to `n` of those that doesn't start or end with a space.
pub fn odd(n: usize, mut f: impl FnMut(&str)) {
    seqs(ODD.len(), 1..=n, |v| {
        let s: String = v.iter().map(|&i| ODD[i]).collect();
        if !s.starts_with(' ') && !s.ends_with(' ') {
            f(&s);
        }
    });
}

/// Hands out words that are all different, and that start with the letters the scanner looks
/// twice at.
#[derive(Default)]
pub struct Words(pub usize);

impl Words {
    pub fn s(&mut self) -> String {
        const W: [&str; 14] = [
            "hip", "Ten", "fife", "ace", "Nice", "pithy", "Cat", "Wit", "image", "her", "éa", "Top", "inc", "eel",
        ];
        self.0 += 1;
        format!("{}{}", W[self.0 % W.len()], self.0)
    }
    pub fn w(&mut self) -> Inls {
        t(&self.s())
    }
    /// A few words on two lines
    pub fn two(&mut self) -> Inls {
        t(&format!("{} {}\n{}", self.s(), self.s(), self.s()))
    }
}

/// The kinds of block that can appear anywhere a block can.
pub const KINDS: usize = 27;

pub fn kind(k: usize, w: &mut Words) -> Blk {
    let item = |p: Inls| Item { principal: p, ..Item::default() };
    let ditem = |t: Inls, p: Inls| DItem { term: t, principal: Some(p), attached: vec![], nested: vec![] };
    match k {
        0 => B::Para(w.w()),
        1 => B::Leaf(Leaf::Listing, vec![w.s(), w.s()]),
        2 => B::List("*".into(), vec![item(w.w()), item(w.two())]),
        3 => B::Parent(Par::Example, vec![B::Para(w.w()).into()]),
        4 => B::Parent(Par::Sidebar, vec![B::Para(w.w()).into()]),
        5 => B::Parent(Par::Open, vec![B::Para(w.w()).into()]),
        6 => B::Parent(Par::Quote, vec![B::Para(w.w()).into()]),
        7 => B::AdmonPara("note", w.w()),
        8 => B::AdmonBlock("tip", vec![B::Para(w.w()).into()]),
        9 => B::Table {
            cols: None,
            ncols: 2,
            rows: vec![vec![w.w(), w.w()], vec![w.w(), w.w()]],
            same_line: true,
            header: true,
        },
        10 => B::DList(vec![ditem(w.w(), w.w()), ditem(w.w(), w.w())]),
        11 => B::List(".".into(), vec![item(w.w()), item(w.w())]),
        12 => B::Leaf(Leaf::Literal, vec![w.s(), w.s()]),
        13 => B::Leaf(Leaf::Pass, vec![w.s(), w.s()]),
        14 => B::Verse(vec![w.w(), w.w()]),
        15 => B::Image(w.s(), String::new()),
        16 => B::Break(false),
        17 => B::Break(true),
        18 => B::CommentLine(w.s()),
        19 => B::CommentBlock(vec![w.s(), w.s()]),
        20 => B::QuotePara(w.w(), None, None),
        21 => B::Para(w.two()),
        22 => B::List(
            "*".into(),
            vec![Item { principal: w.w(), nested: vec![], attached: vec![B::Para(w.w()).into()] }, item(w.w())],
        ),
        23 => B::DList(vec![
            DItem { term: w.w(), principal: Some(w.w()), attached: vec![B::Para(w.w()).into()], nested: vec![] },
            ditem(w.w(), w.w()),
        ]),
        24 => B::Source("rust".into(), vec![w.s(), w.s()]),
        25 => B::Image(w.s(), w.s()),
        26 => B::AdmonPara("warning", w.two()),
        _ => unreachable!(),
    }
    .into()
}

/// Two lists separated by nothing but a blank line are not something the language keeps apart.
pub fn is_list(k: usize) -> bool {
    [2, 10, 11, 22, 23].contains(&k)
}

/// The delimiter a kind uses, which must not be the one it is placed inside of.
pub fn delim_of(k: usize) -> &'static str {
    match k {
        3 | 8 => "====",
        4 => "****",
        5 => "--",
        6 | 14 => "____",
        _ => "",
    }
}

pub fn container(c: usize, v: Vec<Blk>) -> Blk {
    match c {
        0..=3 => B::Parent(Par::ALL[c], v),
        _ => B::AdmonBlock("caution", v),
    }
    .into()
}

pub const CONTAINERS: usize = 5;

pub fn container_delim(c: usize) -> &'static str {
    ["====", "****", "--", "____", "===="][c]
}
