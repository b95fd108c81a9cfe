//! Driving the front end.
use aldrin_parser::{Diagnostic, DiagnosticKind, Formatter, MemoryResolver, Parser, Renderer};
use std::io;

/// The first schema is the main one; `Err` stands for a file that cannot be read.
pub type Set = Vec<(String, Result<String, String>)>;

pub fn ok_set(v: &[(String, String)]) -> Set {
    v.iter().map(|(n, t)| (n.clone(), Ok(t.clone()))).collect()
}

pub fn parse(set: &Set) -> Parser {
    let src = |r: &Result<String, String>| r.clone().map_err(io::Error::other);
    let mut r = MemoryResolver::new(set[0].0.clone(), src(&set[0].1));
    for (n, t) in &set[1..] {
        r.add(n.clone(), src(t));
    }
    Parser::parse(r)
}

pub fn format(p: &Parser) -> Option<String> {
    Formatter::new(p).ok().map(|f| f.to_string())
}

/// Everything that is reported, rendered, in order.
pub fn rendered(p: &Parser, r: &Renderer) -> Vec<String> {
    let mut v = vec![];
    for e in p.errors() {
        v.push(format!("{}: {}", e.schema_name(), r.render(e, p)));
    }
    for w in p.warnings() {
        v.push(format!("{}: {}", w.schema_name(), r.render(w, p)));
    }
    for w in p.other_warnings() {
        v.push(format!("other {}: {}", w.schema_name(), r.render(w, p)));
    }
    v
}

/// Title and notes of every report, without anything about its position.
pub fn messages(p: &Parser) -> Vec<String> {
    let r = Renderer::new(false, false, 100_000);
    let mut v = vec![];
    let mut add = |what: &str, d: &dyn Diagnostic| {
        let t = d.render(&r, p);
        let mut m = format!("{what} {} {:?} ", d.schema_name(), d.kind() == DiagnosticKind::Error);
        let mut head = true;
        for l in t.split('\n') {
            let s = l.trim_start();
            if s.starts_with("--> ") || s.starts_with("::: ") || s == "|" {
                head = false;
            }
            if head || s.starts_with("= ") {
                // among equally good suggestions, the order of imports may decide
                m.push_str(s.split_once("did you mean `").map_or(s, |x| x.0));
                m.push('\n');
            }
        }
        v.push(m);
    };
    p.errors().iter().for_each(|e| add("error", e));
    p.warnings().iter().for_each(|w| add("warning", w));
    p.other_warnings().iter().for_each(|w| add("other", w));
    v.sort();
    v
}
