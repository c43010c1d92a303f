//! The code under test, through its public interface only.
use crate::{canon, html};
use asciidocr::{backends, graph::asg::Asg, parser::Parser, scanner::Scanner};
use serde_json::Value;
use std::path::Path;

/// Parses in memory; image targets and the like are not looked for.
pub fn parse(src: &str) -> Result<Asg, String> {
    parse_at(src, Path::new("/nonexistent/doc.adoc"))
}

pub fn parse_at(src: &str, origin: &Path) -> Result<Asg, String> {
    Parser::new_no_target_resolution(origin.to_path_buf())
        .parse(Scanner::new(src))
        .map_err(|e| format!("{e}"))
}

pub fn json(a: &Asg) -> Value {
    serde_json::to_value(a).expect("the graph does not serialize")
}

/// The canonical tree, or the error.
pub fn tree(src: &str) -> String {
    tree_at(src, Path::new("/nonexistent/doc.adoc"))
}

pub fn tree_at(src: &str, origin: &Path) -> String {
    match parse_at(src, origin) {
        Ok(a) => canon::doc(&json(&a)),
        Err(e) => format!("error: {e}\n"),
    }
}

pub fn html(a: &Asg) -> Result<String, String> {
    backends::htmls::render_htmlbook(a).map_err(|e| format!("html: {e}"))
}

/// The canonical body of the rendered document, having checked that it is well formed.
pub fn html_body(a: &Asg) -> Result<String, String> {
    let text = html(a)?;
    let evs = html::read(&text)?;
    html::balanced(&evs).map_err(|e| format!("{e}\n{text}"))?;
    Ok(html::canon(html::body(&evs)))
}

pub fn html_want(s: &str) -> String {
    html::canon(&html::read(s).expect("the model's html"))
}
