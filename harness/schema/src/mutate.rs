//! Changes to source texts.
use crate::corpus;
use crate::gen;
use vp::Src;

fn at(s: &mut Src, t: &str) -> usize {
    let mut i = s.us(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

const TOK: [&str; 86] = [
    "import", "struct", "enum", "service", "fn", "event", "const", "newtype", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "string",
    "uuid", "object_id", "service_id", "bool", "f32", "f64", "value", "box", "vec", "bytes", "map", "set", "required", "option", "version",
    "args", "ok", "err", "sender", "receiver", "lifetime", "unit", "result", "fallback", ";", "=", "(", ")", "<", ">", "->", "::", "#", "[",
    "]", ",", "{", "}", "@", "!", "//", "///", "//!", "\"", "\\", "0", "1", "-1", "42", "4294967296", "a", "B", "Foo", "self", "other", "_", "é",
    "7c0a9ccf-0c4c-4b1d-b4b5-0c5a1ff8e3b0", "#[rust(impl_copy)]", "#![a]", "\n", "\r\n", "\r", " ", "\t", "\u{feff}", "\u{0}", "名", "\u{2028}",
];

/// Tokens of the grammar in any order.
pub fn soup(s: &mut Src) -> String {
    let n = s.small(120);
    let mut t = String::new();
    let sep = s.below(3);
    for _ in 0..n {
        match s.weighted(&[12, 3, 1]) {
            0 => t.push_str(s.pick(&TOK)),
            1 => t.push_str(s.pick(&SNIPPETS)),
            _ => t.push_str(&gen::line(s, true)),
        }
        match sep {
            0 => t.push(' '),
            1 => t.push_str(s.pick(&[" ", "", "\n"])),
            _ => {}
        }
    }
    t
}

const SNIPPETS: [&str; 24] = [
    "struct Foo {}", "struct Foo { a @ 1 = u32; }", "required a @ 1 = Foo;", "enum Bar { A @ 0; }", "enum E {}", "service Svc {",
    "uuid = 7c0a9ccf-0c4c-4b1d-b4b5-0c5a1ff8e3b0;", "version = 1;", "fn f @ 1;", "fn f @ 1 = u8;", "fn f @ 1 { args = struct {", "ok = enum {",
    "event ev @ 2 = Foo;", "fn u = fallback;", "event u = fallback;", "u = fallback;", "const C = u8(", "const S = string(\"x\");",
    "newtype N = vec<Foo>;", "[u8; 4]", "map<u8 -> Foo>", "result<Foo, other::Foo>", "import other;", "/// [Foo] [self::Nope]\n",
];

fn once(s: &mut Src, t: &mut String) {
    match s.below(10) {
        0 => {
            let (a, b) = (at(s, t), at(s, t));
            let (a, b) = (a.min(b), a.max(b));
            let b = if s.bool() { b } else { t[a..].chars().next().map_or(a, |c| a + c.len_utf8()) };
            t.replace_range(a..b.min(t.len()), "");
        }
        1 => {
            let i = at(s, t);
            t.insert_str(i, s.pick(&TOK));
        }
        2 => {
            let i = at(s, t);
            let l = gen::line(s, true);
            t.insert_str(i, &l);
        }
        3 => {
            // a doc comment or comment before some line
            let starts: Vec<usize> = std::iter::once(0).chain(t.match_indices('\n').map(|(i, _)| i + 1)).collect();
            let i = *s.pick(&starts);
            let l = format!("{}{}{}", s.pick(&["///", "//!", "//"]), gen::line(s, true), s.pick(&["\n", "\r\n"]));
            t.insert_str(i, &l);
        }
        4 => {
            // lines moved or repeated
            let mut l: Vec<&str> = t.split_inclusive('\n').collect();
            if l.is_empty() {
                return;
            }
            let (i, j) = (s.us(l.len()), s.us(l.len()));
            if s.bool() {
                l.swap(i, j);
            } else {
                let x = l[i];
                l.insert(j, x);
            }
            *t = l.concat();
        }
        5 => {
            let (a, b) = (s.pick(&TOK), s.pick(&TOK));
            *t = t.replacen(a, b, 1 + s.us(3));
        }
        6 => {
            let f = corpus::files();
            let o = &f[s.us(f.len())].text;
            let (a, b) = (at(s, o), at(s, o));
            let part = &o[a.min(b)..a.max(b)];
            let i = at(s, t);
            t.insert_str(i, part);
        }
        7 => *t = if s.bool() { t.replace('\n', "\r\n") } else { t.replacen('\n', "\r", s.us(4)) },
        8 => {
            let i = at(s, t);
            t.truncate(i);
        }
        _ => {
            let i = at(s, t);
            if let Some(c) = t[i..].chars().next() {
                let n = char::from_u32(s.below(0x3000) as u32).unwrap_or('x');
                t.replace_range(i..i + c.len_utf8(), &n.to_string());
            }
        }
    }
}

pub fn wild(s: &mut Src, t: &str) -> String {
    let mut t = t.to_owned();
    for _ in 0..s.range(1, 6) {
        once(s, &mut t);
    }
    t
}

/// Changes that tend to keep the text a schema.
pub fn gentle(s: &mut Src, t: &str) -> String {
    let mut t = t.to_owned();
    for _ in 0..s.range(1, 5) {
        match s.below(6) {
            0 => {
                let i = t.match_indices([';', '{', '}']).map(|(i, _)| i + 1).collect::<Vec<_>>();
                if !i.is_empty() {
                    let i = *s.pick(&i);
                    t.insert_str(i, s.pick(&[" ", "\n", "\n\n", "\r\n", "\t", "\u{a0}"]));
                }
            }
            1 | 2 => {
                let starts: Vec<usize> = std::iter::once(0).chain(t.match_indices('\n').map(|(i, _)| i + 1)).collect();
                let i = *s.pick(&starts);
                let wild = s.bool();
                let l = format!("{}{}\n", s.pick(&["//", "///", "//!"]), gen::line(s, wild));
                t.insert_str(i, &l);
            }
            3 => {
                let mut l: Vec<&str> = t.split_inclusive('\n').collect();
                if !l.is_empty() {
                    let (i, j) = (s.us(l.len()), s.us(l.len()));
                    if s.bool() {
                        l.swap(i, j);
                    } else {
                        l.remove(i);
                    }
                    t = l.concat();
                }
            }
            4 => {
                let p = [("u32", "map<u8 -> vec<u8>>"), ("string", "[u8; 3]"), (" @", "@"), ("required ", "required\n"), ("= ", "="), (";", " ;")];
                let (a, b) = *s.pick(&p);
                let k: Vec<_> = t.match_indices(a).map(|(i, _)| i).collect();
                if !k.is_empty() {
                    let i = *s.pick(&k);
                    t.replace_range(i..i + a.len(), b);
                }
            }
            _ => once(s, &mut t),
        }
    }
    t
}
