//! What a source text says, token by token, for texts that were not generated.
use crate::model::text;
use std::collections::BTreeMap;

/// How often each comment, doc comment, name, number, string and attribute mark occurs. Punctuation
/// and the words of optional forms do not count.
pub fn bag(src: &str) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    let mut add = |k: String| *m.entry(k).or_insert(0) += 1;
    let mut c = src;
    while let Some(ch) = c.chars().next() {
        if c.starts_with("//") {
            let end = c.find('\n').unwrap_or(c.len());
            let l = &c[..end];
            let (kind, rest) = if let Some(r) = l.strip_prefix("///") {
                ("doc", r)
            } else if let Some(r) = l.strip_prefix("//!") {
                ("inner doc", r)
            } else {
                ("comment", &l[2..])
            };
            add(format!("{kind} {}", text(rest)));
            c = &c[end..];
        } else if ch == '"' {
            let mut esc = false;
            let end = c[1..]
                .char_indices()
                .find(|(_, x)| {
                    let e = esc;
                    esc = !e && *x == '\\';
                    *x == '"' && !e
                })
                .map_or(c.len(), |(i, _)| i + 2);
            add(format!("string {}", &c[..end]));
            c = &c[end..];
        } else if ch.is_alphanumeric() || ch == '_' || ch == '-' && !c.starts_with("->") {
            let end = c
                .char_indices()
                .skip(1)
                .find(|(i, x)| !(x.is_alphanumeric() || *x == '_' || *x == '-' && !c[*i..].starts_with("->")))
                .map_or(c.len(), |(i, _)| i);
            if &c[..end] != "ok" {
                add(format!("word {}", &c[..end]));
            }
            c = &c[end..];
        } else {
            if ch == '#' {
                add("attribute".into());
            }
            c = &c[ch.len_utf8()..];
        }
    }
    m
}
