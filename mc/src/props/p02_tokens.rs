//! Scanning loses nothing: the lexemes, in order, are the source, and each token knows the line
//! and column at which its lexeme starts.
use super::p01_total::{CHARS, FRAGS, THEMES};
use super::seqs;
use crate::engine::*;
use asciidocr::scanner::{tokens::TokenType, Scanner};

fn check(src: &str, o: &mut Obs, strict: bool) -> Result<(), String> {
    o.ran();
    let mut at = 0;
    let mut line = 1;
    let mut col = 1;
    // The newline right after a description list marker does not move the line on; that is a known
    // finding, with an input of its own below, which should not hide everything else.
    let (mut line2, mut col2) = (1, 1);
    let mut ended = false;
    let mut shape = String::new();
    for r in guarded(|| Scanner::new(src).collect::<Vec<_>>())? {
        let tok = match r {
            Ok(t) => t,
            Err(e) => {
                // the only text the scanner refuses is a heading that is too deep
                return if src.contains("======") {
                    o.hit("refused");
                    Ok(())
                } else {
                    Err(format!("refused: {e}"))
                };
            }
        };
        shape += &format!("{:?} ", tok.token_type());
        if ended {
            return Err(format!("{:?} after the end", tok.token_type()));
        }
        if tok.token_type() == TokenType::Eof {
            ended = true;
            continue;
        }
        if tok.lexeme.is_empty() {
            return Err(format!("{:?} without a lexeme at {at}", tok.token_type()));
        }
        // what else is on the line of a tag directive is part of a comment, and may be left out
        if !src[at..].starts_with(&tok.lexeme) {
            let rest = &src[at..];
            let start = src[..at].rfind('\n').map_or(0, |i| i + 1);
            let here = &rest[..rest.find('\n').unwrap_or(rest.len())];
            let whole = &src[start..at + here.len()];
            if whole.contains("tag::") || whole.contains("end::") {
                let next = rest.find(&tok.lexeme).filter(|&i| i <= here.len());
                if let Some(i) = next {
                    o.hit("directive");
                    at += i;
                    col += i;
                    col2 += i;
                }
            }
        }
        if !src[at..].starts_with(&tok.lexeme) {
            return Err(format!("{:?} is {:?}, the source at {at} is {:?}", tok.token_type(), tok.lexeme, &src[at..]));
        }
        let said = (tok.line, tok.startcol);
        if said != (line, col) && (strict || said != (line2, col2)) {
            return Err(format!(
                "{:?} {:?} says it is at {}:{}, it is at {line}:{col}",
                tok.token_type(), tok.lexeme, tok.line, tok.startcol
            ));
        }
        at += tok.lexeme.len();
        let marker = tok.token_type() == TokenType::DescriptionListMarker;
        for c in tok.lexeme.chars() {
            if c == '\n' && !marker {
                line2 += 1;
                col2 = 1;
            } else {
                col2 += c.len_utf8();
            }
            if c == '\n' {
                line += 1;
                col = 1;
            } else {
                col += c.len_utf8();
            }
        }
    }
    if !ended {
        return Err("there is no end token".into());
    }
    let tail = &src[at..];
    let whole = &src[src[..at].rfind('\n').map_or(0, |i| i + 1)..];
    if at != src.len() && !(!tail.contains('\n') && (whole.contains("tag::") || whole.contains("end::"))) {
        return Err(format!("{:?} was not scanned", &src[at..]));
    }
    o.saw(&shape);
    Ok(())
}

pub fn run(cx: &mut Cx) {
    cx.space("characters");
    seqs(CHARS.len(), 0..=cx.tier.pick(4, 5), |v| {
        if cx.mine() {
            let s: String = v.iter().map(|&i| CHARS[i]).collect();
            cx.check(v.len(), &s, |o| check(&s, o, false));
        }
    });
    cx.space("fragments");
    seqs(FRAGS.len(), 1..=cx.tier.pick(3, 4), |v| {
        if cx.mine() {
            let s: String = v.iter().map(|&i| FRAGS[i]).collect();
            cx.check(v.len(), &s, |o| check(&s, o, false));
        }
    });
    cx.space("longer texts of a few symbols");
    for theme in &THEMES {
        seqs(theme.len(), 5..=cx.tier.pick(7, 9), |v| {
            if cx.mine() {
                let s: String = v.iter().map(|&i| theme[i]).collect();
                cx.check(v.len(), &s, |o| check(&s, o, false));
            }
        });
    }
    cx.space("a description list marker that ends its line");
    if cx.mine() {
        let s = "term::\ntext\n";
        cx.check(2, s, |o| check(s, o, true));
    }
}
