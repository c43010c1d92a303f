//! Every text is either converted or rejected with an error: nothing panics, hangs, overflows the
//! stack, or ends the process.
use super::seqs;
use crate::engine::*;
use crate::sut;
use asciidocr::backends::docx::render_docx;

/// One of every character that means something to the scanner, a letter, a digit and a character
/// that is more than one byte long.
pub const CHARS: [&str; 37] = [
    "a", "\n", " ", "*", "_", "`", "#", "+", "^", "~", "[", "]", ":", "=", "-", ".", "'", "\"", "<", ">", "|", "{",
    "}", "&", ";", "(", ")", "/", "é", "1", "\\", ",", "\t", "!",
    "—", "\u{a0}", "😀",
];

/// What belongs together, for longer texts
pub const THEMES: [[&str; 6]; 20] = [
    ["&", ";", "a", "—", "é", "#"],
    ["{", "}", "-", "a", "é", "\n"],
    ["[", "]", ".", "#", "a", "\n"],
    ["<", ">", "1", "\n", "a", "é"],
    ["|", "\n", "a", "é", " ", "==="],
    ["'", "`", "\"", "a", "s", "\n"],
    [":", "\n", "a", " ", "{", "!"],
    ["*", "_", "a", "\n", " ", "é"],
    ["+", "\n", "*", " ", "a", "."],
    ["=", "\n", "a", "(", "C", ")"],
    ["-", "\n", ">", "=", " ", "a"],
    ["tag::", "end::", "a", "[]", "\n", "// "],
    ["http", "://", "[", "]", ".", "—"],
    ["image:", ":", "a", "[", "]", "é"],
    ["footnote:[", "pass:[", "]", "*", "a", "\n"],
    ["<<", ">>", ",", "—", "a", "\n"],
    ["****\n", "====\n", "a\n", "\n", "* a\n", "+\n"],
    ["____\n", "[verse]\n", "a\n", "\n", "[quote]\n", "--\n"],
    ["== a\n", "=== a\n", "\n", "a\n", ".a\n", "[[a]]\n"],
    ["|===\n", "|a ", "|é\n", "\n", "a\n", "[cols=\"1,2\"]\n"],
];

pub const FRAGS: [&str; 92] = [
    "a", "\n", "\n\n", " ", "*", "**", "_", "__", "`", "``", "#", "##", "+", "++", "^", "~", "[", "]", "::", ":a: b", ":!a:", "{a}", "== ",
    "= ", "=== ", "===== ", "----", "====", "****", "____", "....", "++++", "////", "--", "\"", "'", "\"`", "`\"", "'`",
    "`'", "* ", "** ", ". ", ".. ", "- ", "<1> ", "<.> ", "<1>", "<<a>>", "<<a,b>>", "[[a]]", "[a]", "[.a]", "[#a]", "[quote,b,c]", "[verse]",
    "[source,x]", "[NOTE]", "[role=\"a b\"]", "NOTE: ", "TIP:", "|===", "|", "|a", "&lt;", "&#9;", "footnote:[", "pass:[", "http://a.b",
    "http://a.b[", "mailto:", "link:", "image::a[]", "image:a[]", ".a", "+\n", " +\n", "'''", "<<<", "//", "// tag::a[]", "// end::a[]", "é", "t:: ",
    "(C)", "...", "->", "[cols=\"1,1\"]", "[cols=3*]", "include::a[]", ":leveloffset: 9", "\r\n",
];

fn convert(src: &str, html: bool, docx: Option<&std::path::Path>, o: &mut Obs) -> Result<(), String> {
    o.ran();
    match guarded(|| sut::parse(src))? {
        Err(e) => {
            o.hit("rejected");
            o.saw(e.split(|c: char| c.is_ascii_digit()).next().unwrap_or(""));
        }
        Ok(a) => {
            o.hit("accepted");
            let j = guarded(|| sut::json(&a))?;
            o.saw(&j["blocks"].to_string());
            guarded(|| a.word_count())?;
            if html {
                o.ran();
                guarded(|| sut::html(&a))??;
            }
            if let Some(p) = docx {
                o.ran();
                // images cannot be read here, which is an error, not a crash
                let _ = guarded(|| render_docx(&a, p))?;
            }
            let mut a = a;
            let _ = guarded(|| a.standardize_footnotes())?;
        }
    }
    Ok(())
}

pub fn run(cx: &mut Cx) {
    let docx = cx.scratch.join("out.docx");
    let all = |cx: &mut Cx, alpha: &[&str], lens: std::ops::RangeInclusive<usize>, html: bool, word: bool| {
        seqs(alpha.len(), lens, |v| {
            if cx.mine() {
                let s: String = v.iter().map(|&i| alpha[i]).collect();
                let docx = word.then_some(docx.as_path());
                cx.check(v.len(), &s, |o| convert(&s, html, docx, o));
            }
        })
    };
    cx.space("characters, parsed");
    all(cx, &CHARS, 0..=cx.tier.pick(4, 5), false, false);
    cx.space("fragments, parsed");
    all(cx, &FRAGS, 1..=cx.tier.pick(3, 4), false, false);
    cx.space("longer texts of a few symbols, parsed");
    for theme in &THEMES {
        all(cx, theme, 5..=cx.tier.pick(7, 8), false, false);
    }
    cx.space("characters, converted");
    all(cx, &CHARS, 1..=cx.tier.pick(2, 3), true, true);
    cx.space("fragments, converted");
    all(cx, &FRAGS, 1..=cx.tier.pick(2, 3), true, cx.tier == Tier::Quick);
    cx.space("images of any kind");
    let one = super::p20_docx::png(1);
    let files: [(&str, &[u8]); 7] = [
        ("whole.png", &one),
        ("cut.png", &one[..40]),
        ("bad.png", &[&one[..20], &[255; 40]].concat()),
        ("empty.png", b""),
        ("a.svg", b"<svg xmlns=\"http://www.w3.org/2000/svg\"/>"),
        ("a.gif", b"GIF89a"),
        ("a.txt", b"text"),
    ];
    for (name, bytes) in files {
        let _ = std::fs::write(cx.scratch.join(name), bytes);
    }
    let _ = std::fs::create_dir(cx.scratch.join("dir"));
    for name in files.iter().map(|f| f.0).chain(["dir", "missing.png", "", "\0"]) {
        for around in ["@", ".t\n@", "* a\n+\n@\n* b", "|===\n|a\n|===\n\n@", "== s\n\n@\n\nx", "a image:TARGET[] b", "====\n@\n====", "<<<\n\n@\n\n@", "[NOTE]\n@"] {
            for alt in ["", "a b", "\"q\",x=y"] {
                if cx.mine() {
                    let s = around.replace('@', &format!("image::TARGET[{alt}]"));
                    let src = s.replace("TARGET", &if name.len() > 1 { cx.scratch.join(name).display().to_string() } else { name.into() });
                    cx.check(2, &s.replace("TARGET", name), |o| convert(&src, true, Some(&docx), o));
                }
            }
        }
    }
    // repetition: nothing may take time or stack out of proportion to the input
    cx.space("repeated fragments");
    for n in [10, 100, cx.tier.pick(600, 3000)] {
        for (i, a) in FRAGS.iter().enumerate() {
            for (j, b) in ["", "\n", "\n\n", " a ", "x\n"].iter().enumerate() {
                let _ = (i, j);
                if cx.mine() {
                    let s = format!("{a}{b}").repeat(n);
                    cx.check(n, &s, |o| convert(&s, n <= 10, None, o));
                }
            }
        }
    }
}
