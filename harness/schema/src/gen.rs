//! Generators of model schemas.
#![allow(dead_code)]
use crate::model::*;
use std::collections::BTreeSet;
use vp::Src;

// ---------------------------------------------------------------------------------------------
// Text

/// Pieces of markdown, links to names that tend to exist, and characters that are hard on spans.
const MD: [&str; 92] = [
    "a", " ", "text", "[", "]", "(", ")", "[]", "[]()", "[x]", "[ ]", "- [ ] ", "- [x] t", "`", "``", "```", "~~", "~~~", "*",
    "**", "_", "__", "#", "# ", "## h", "> ", ">", "    ", "\t", "|", "|a|b|", "|-|-|", "| [self::Foo] | [Bar] |", "-", "--", "---",
    "===", "...", "'", "\"", "\\", "\\\\", "\\[", "\\]", "&amp;", "&#0;", "&", "<b>", "</b>", "<!-- ", "-->", "<http://a.b>",
    "http://a.b", "![i](self::Foo)", "![Foo]", "[^1]", "[^1]: [Foo]", "[a]: self::Foo", "[b]: <self::Nope>", "[a]", "[b]", "[x][a]",
    "[Foo]", "[`Foo`]", "[self::Foo]", "[`self::Foo`]", "[Foo::a]", "[Bar::B]", "[Svc::f::args]", "[self::Svc::f::ok::a]",
    "[other::Foo]", "[`other::Foo`]", "[t](self::Foo)", "[t](Foo \"title\")", "[t](<Nope>)", "[Nope]", "[`Nope`]", "[self]", "[other]",
    "[::]", "[:]", "[Foo::]", "[::Foo]", "é", "名", "\u{1f600}", "e\u{301}", "\u{200b}", "\u{feff}", "\r", "\u{0}", "\u{85}",
];

const LINK: [&str; 40] = [
    "self", "other", "Foo", "Bar", "Svc", "f", "g", "ev", "args", "ok", "err", "a", "b", "A", "B", "unknown", "::", "::", "::", ":", "_",
    "", "x", "type", "CONST", "New", "third", "Nope", "0", "é", " ", "`", "super", "fallback", "Self", "Foo2", "main", "aa", "self::Foo", "other::Foo",
];

/// One line of a doc comment or comment, without a line end.
pub fn line(s: &mut Src, wild: bool) -> String {
    if !wild {
        return match s.below(6) {
            0 => String::new(),
            1 => " Some text.".into(),
            2 => " See [self::Foo].".into(),
            3 => "no blank".into(),
            4 => "   indented  ".into(),
            _ => format!(" line {}", s.below(1000)),
        };
    }
    let n = s.small(8);
    let mut t = String::new();
    if s.chance(2, 3) {
        t.push(' ');
    }
    for _ in 0..n {
        match s.weighted(&[10, 3, 2]) {
            0 => t.push_str(s.pick(&MD)),
            1 => {
                let tick = s.chance(1, 3);
                t.push('[');
                if tick {
                    t.push('`');
                }
                for _ in 0..s.range(1, 6) {
                    t.push_str(s.pick(&LINK));
                }
                if tick {
                    t.push('`');
                }
                t.push(']');
            }
            _ => {
                let c = match s.below(5) {
                    0 => char::from_u32(s.below(0x20) as u32),
                    1 => char::from_u32(0x20 + s.below(0x60) as u32),
                    2 => char::from_u32(0x80 + s.below(0x800) as u32),
                    3 => char::from_u32(0x2000 + s.below(0x100) as u32),
                    _ => char::from_u32(s.below(0x110000) as u32),
                };
                if let Some(c) = c {
                    t.push(c);
                }
            }
        }
    }
    t.retain(|c| c != '\n');
    t
}

fn lines(s: &mut Src, o: &Opts, max: usize, md: bool) -> Lines {
    if o.text == 0 || !s.chance(o.text as u64, 10) {
        return vec![];
    }
    let n = s.range(1, max.max(1));
    (0..n)
        .map(|_| {
            let wild = o.wild_text && (md || s.bool());
            line(s, wild)
        })
        .collect()
}

/// Comments must not read as doc comments.
fn comment_lines(s: &mut Src, o: &Opts) -> Lines {
    let mut l = lines(s, o, 3, false);
    for x in &mut l {
        if x.starts_with('/') || x.starts_with('!') {
            x.insert(0, ' ');
        }
    }
    l
}

fn pre(s: &mut Src, o: &Opts, attrs: bool) -> Pre {
    Pre {
        comment: comment_lines(s, o),
        doc: lines(s, o, 4, true),
        attrs: if attrs { gen_attrs(s, o) } else { vec![] },
    }
}

fn inline_pre(s: &mut Src, o: &Opts) -> Pre {
    Pre { comment: vec![], doc: lines(s, o, 3, true), attrs: gen_attrs(s, o) }
}

fn gen_attrs(s: &mut Src, o: &Opts) -> Vec<(String, Vec<String>)> {
    if !o.attrs || !s.chance(1, 4) {
        return vec![];
    }
    (0..s.range(1, 2))
        .map(|_| {
            let n = s.small(3);
            (
                s.pick(&["rust", "foo", "python", "impl_copy", "_"]).to_string(),
                (0..n)
                    .map(|_| {
                        s.pick(&["impl_copy", "impl_partial_eq", "impl_eq", "impl_partial_ord", "impl_ord", "impl_hash", "x", "struct"])
                            .to_string()
                    })
                    .collect(),
            )
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Anything the grammar allows

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    /// Chance of text in any position, in tenths.
    pub text: u8,
    pub wild_text: bool,
    pub attrs: bool,
    /// Invalid identifiers, numbers out of range, duplicates, unknown references.
    pub wild: bool,
}

const TYPES: [&str; 18] = [
    "Foo", "Bar", "Baz", "Foo2", "New", "Svc", "CONST", "foo_bar", "FooBar", "Self", "_X", "__", "名", "Ünit", "Type", "Option", "Nope",
    "FoO",
];
const MEMBERS: [&str; 30] = [
    "a", "b", "c", "A", "B", "type", "self", "f", "g", "ev", "fooBar", "foo_bar", "required", "required2", "fallback", "struct", "fn",
    "event", "version", "uuid", "args", "ok", "err", "import", "_", "x1", "é", "option", "u8", "async",
];
pub const SCHEMAS: [&str; 6] = ["main", "other", "third", "missing", "broken", "Odd_Name"];

/// The grammar commits to a built-in type once its name is a prefix.
fn reads_as_builtin(n: &str) -> bool {
    PRIMS.iter().any(|p| n.starts_with(p))
}

fn int(s: &mut Src, o: &Opts) -> String {
    if !o.wild || s.chance(3, 4) {
        return s.below(8).to_string();
    }
    s.pick(&[
        "-1", "-0", "007", "255", "256", "-128", "-129", "65536", "4294967295", "4294967296", "-2147483649", "18446744073709551615",
        "18446744073709551616", "-9223372036854775808", "9223372036854775808", "99999999999999999999999999", "0",
    ])
    .to_string()
}

fn uuid(s: &mut Src) -> String {
    match s.below(4) {
        0 => "00000000-0000-0000-0000-000000000000".into(),
        1 => "9b8ADC5a-3C86-4dd2-85c2-b0ee0a7b2d4F".into(),
        _ => format!("{:08x}-{:04x}-{:04x}-{:04x}-{:012x}", s.below(1 << 32), s.below(1 << 16), s.below(1 << 16), s.below(1 << 16), s.below(1 << 48)),
    }
}

fn reference(s: &mut Src, o: &Opts) -> (Option<String>, String) {
    let pick = |s: &mut Src, xs: &[&str]| loop {
        let n = *s.pick(xs);
        if !reads_as_builtin(n) {
            return n.to_string();
        }
    };
    let m = if s.chance(1, 3) { Some(if s.chance(9, 10) { pick(s, &SCHEMAS[..4]) } else { "self".into() }) } else { None };
    let n = if o.wild && s.chance(1, 10) {
        pick(s, &MEMBERS)
    } else {
        pick(s, &TYPES[..8])
    };
    (m, n)
}

pub fn any_ty(s: &mut Src, o: &Opts, depth: usize) -> Ty {
    let k = if depth == 0 { s.weighted(&[6, 3]) } else { s.weighted(&[6, 3, 4, 2, 2, 2]) };
    match k {
        0 => Ty::Prim(s.pick(&PRIMS)),
        1 => {
            let (m, n) = reference(s, o);
            Ty::Ref(m, n)
        }
        2 => Ty::One(s.pick(&ONES), Box::new(any_ty(s, o, depth - 1))),
        3 => Ty::Map(Box::new(any_ty(s, o, depth - 1)), Box::new(any_ty(s, o, depth - 1))),
        4 => Ty::Result(Box::new(any_ty(s, o, depth - 1)), Box::new(any_ty(s, o, depth - 1))),
        _ => {
            let t = Box::new(any_ty(s, o, depth - 1));
            let len = if s.bool() {
                Len::Lit(int(s, o))
            } else {
                let m = if s.chance(1, 3) { Some(s.pick(&SCHEMAS[..4]).to_string()) } else { None };
                Len::Ref(m, s.pick(&["CONST", "C2", "Foo", "Svc", "Nope", "LEN"]).to_string())
            };
            Ty::Array(t, len)
        }
    }
}

fn member(s: &mut Src, o: &Opts, i: usize) -> String {
    if o.wild && s.chance(1, 2) {
        s.pick(&MEMBERS).to_string()
    } else {
        format!("{}{}", s.pick(&["a", "b", "field_", "Var"]), i)
    }
}

fn any_id(s: &mut Src, o: &Opts, i: usize) -> String {
    if o.wild && s.chance(1, 4) {
        int(s, o)
    } else {
        i.to_string()
    }
}

fn any_fallback(s: &mut Src, o: &Opts) -> Option<Fallback> {
    s.chance(1, 4).then(|| Fallback { pre: pre(s, o, false), name: if o.wild { member(s, o, 99) } else { "unknown".into() } })
}

fn any_fields(s: &mut Src, o: &Opts) -> Vec<Field> {
    let n = s.small(5);
    (0..n)
        .map(|i| Field {
            pre: pre(s, o, false),
            required: s.bool(),
            name: member(s, o, i),
            id: any_id(s, o, i),
            ty: any_ty(s, o, 3),
        })
        .collect()
}

fn any_vars(s: &mut Src, o: &Opts) -> Vec<Variant> {
    let n = s.small(5);
    (0..n)
        .map(|i| Variant {
            pre: pre(s, o, false),
            name: member(s, o, i),
            id: any_id(s, o, i),
            ty: s.bool().then(|| any_ty(s, o, 3)),
        })
        .collect()
}

fn any_inline(s: &mut Src, o: &Opts) -> Inline {
    match s.below(4) {
        0 | 1 => Inline::Ty(any_ty(s, o, 3)),
        2 => Inline::Struct(inline_pre(s, o), any_fields(s, o), any_fallback(s, o)),
        _ => Inline::Enum(inline_pre(s, o), any_vars(s, o), any_fallback(s, o)),
    }
}

fn any_part(s: &mut Src, o: &Opts) -> Option<FnPart> {
    s.bool().then(|| FnPart { comment: comment_lines(s, o), ty: any_inline(s, o) })
}

fn type_name(s: &mut Src, o: &Opts, i: usize) -> String {
    if o.wild && s.chance(2, 3) {
        s.pick(&TYPES).to_string()
    } else if i < 6 {
        TYPES[i].to_string()
    } else {
        format!("T{i}")
    }
}

pub fn any_string(s: &mut Src) -> String {
    let n = s.small(6);
    let mut t = String::from("\"");
    for _ in 0..n {
        t.push_str(s.pick(&["a", " ", "\\\\", "\\\"", "//", "///", "\\n", "\\é", "名", "\r ", "{}", "'", ";", "\u{0}", "\t", "\u{202e}", "{x}"]));
    }
    t.push('"');
    t
}

fn any_def(s: &mut Src, o: &Opts, i: usize) -> Def {
    let name = type_name(s, o, i);
    match s.weighted(&[4, 4, 4, 3, 3]) {
        0 => Def::Struct { pre: pre(s, o, true), name, fields: any_fields(s, o), fallback: any_fallback(s, o) },
        1 => Def::Enum { pre: pre(s, o, true), name, vars: any_vars(s, o), fallback: any_fallback(s, o) },
        2 => {
            let n = s.small(5);
            Def::Service(Svc {
                pre: pre(s, o, false),
                name,
                uuid_comment: comment_lines(s, o),
                uuid: uuid(s),
                ver_comment: comment_lines(s, o),
                ver: int(s, o),
                items: (0..n)
                    .map(|i| {
                        let p = pre(s, o, false);
                        let name = member(s, o, i);
                        let id = any_id(s, o, i);
                        if s.bool() {
                            Item::Fn { pre: p, name, id, args: any_part(s, o), ok: any_part(s, o), err: any_part(s, o) }
                        } else {
                            Item::Ev { pre: p, name, id, ty: s.bool().then(|| any_inline(s, o)) }
                        }
                    })
                    .collect(),
                fn_fallback: any_fallback(s, o),
                ev_fallback: any_fallback(s, o),
            })
        }
        3 => {
            let p = pre(s, o, false);
            let name = if s.bool() { s.pick(&["CONST", "C2", "LEN"]).to_string() } else { name };
            match s.below(10) {
                0 | 1 => Def::Const { pre: p, name, kind: "string", val: any_string(s) },
                2 => Def::Const { pre: p, name, kind: "uuid", val: uuid(s) },
                _ => Def::Const { pre: p, name, kind: s.pick(&INTS), val: int(s, o) },
            }
        }
        _ => Def::Newtype { pre: pre(s, o, true), name, ty: any_ty(s, o, 3) },
    }
}

/// Syntactically valid; anything else only by chance.
pub fn any_schema(s: &mut Src, o: &Opts) -> Schema {
    let doc = lines(s, o, 3, true);
    let comment = if doc.is_empty() { vec![] } else { comment_lines(s, o) };
    let n = s.small(4);
    let imports = (0..n).map(|_| (comment_lines(s, o), s.pick(&SCHEMAS).to_string())).collect();
    let n = s.small(7);
    let defs = (0..n).map(|i| any_def(s, o, i)).collect();
    Schema { comment, doc, imports, defs }
}

pub fn any_opts(s: &mut Src) -> Opts {
    Opts { text: *s.pick(&[4, 1, 0, 9]), wild_text: s.bool(), attrs: s.bool(), wild: s.bool() }
}

// ---------------------------------------------------------------------------------------------
// Schemas without errors

#[derive(Clone, Copy, Debug)]
pub struct Valid {
    pub o: Opts,
    /// Number of schemas that may import each other.
    pub schemas: usize,
    pub defs: usize,
    pub depth: usize,
    /// Names that are keywords somewhere.
    pub odd_names: bool,
    pub services: bool,
    /// Types whose values are tied to a connection or that have no equality.
    pub channels: bool,
    pub array_max: u64,
}

/// Can be written as raw identifiers in Rust.
const KEYWORDS: [&str; 24] = [
    "as", "async", "await", "break", "const", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "match", "mod",
    "move", "pub", "ref", "static", "true", "type", "where",
];
const FIELD_NAMES: [&str; 16] = [
    "a", "bb", "value", "name", "some_field", "x_1", "required", "fallback", "struct", "option", "string", "u8", "version", "uuid", "id",
    "self_",
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Struct,
    Enum,
    Service,
    Const,
    Newtype,
}

struct Sig {
    name: String,
    kind: K,
    /// Newtypes: whether they are key types.
    key: bool,
    const_len: Option<u64>,
    imported: usize,
}

struct V<'a, 'b> {
    s: &'a mut Src,
    v: &'b Valid,
    sigs: Vec<Vec<Sig>>,
    names: Vec<String>,
    schema: usize,
    def: usize,
    used: BTreeSet<usize>,
}

pub const VALID_NAMES: [&str; 4] = ["main_schema", "other", "third_one", "s4"];

pub fn valid_schemas(s: &mut Src, v: &Valid) -> Vec<(String, Schema)> {
    let n = if v.schemas <= 1 { 1 } else { s.range(1, v.schemas) };
    let names: Vec<String> = VALID_NAMES[..n].iter().map(|s| s.to_string()).collect();
    // signatures first, so that references can go anywhere
    let mut sigs = vec![];
    for si in 0..n {
        let k = s.range(1, v.defs);
        let mut l = vec![];
        for i in 0..k {
            let kind = match s.weighted(&[5, 4, if v.services { 2 } else { 0 }, 2, 3]) {
                0 => K::Struct,
                1 => K::Enum,
                2 => K::Service,
                3 => K::Const,
                _ => K::Newtype,
            };
            let key = kind == K::Newtype && s.chance(1, 3);
            let name = match kind {
                K::Const => format!("CONST_{i}"),
                _ if v.odd_names && s.chance(1, 8) => {
                    let t = s.pick(&["type", "match", "async", "Option", "Vec", "String", "Result", "Ok", "Err", "Some", "None", "Box", "str", "union"]).to_string();
                    if l.iter().any(|x: &Sig| x.name == t) || reads_as_builtin(&t) { format!("Ty{i}") } else { t }
                }
                _ => match i {
                    0 => "Foo".into(),
                    1 => "Bar".into(),
                    _ => format!("{}{i}", s.pick(&["Ty", "My", "Rec", "X"])),
                },
            };
            let const_len = (kind == K::Const && s.chance(2, 3)).then(|| 1 + s.below(v.array_max.min(100)));
            l.push(Sig { name, kind, key, const_len, imported: si });
        }
        sigs.push(l);
    }
    let mut out = vec![];
    for si in 0..n {
        let mut g = V { s, v, sigs, names: names.clone(), schema: si, def: 0, used: BTreeSet::new() };
        let sch = g.schema();
        sigs = g.sigs;
        out.push((names[si].clone(), sch));
    }
    out
}

impl V<'_, '_> {
    fn schema(&mut self) -> Schema {
        let o = self.v.o;
        let doc = lines(self.s, &o, 3, true);
        let comment = if doc.is_empty() { vec![] } else { comment_lines(self.s, &o) };
        let n = self.sigs[self.schema].len();
        let mut defs = vec![];
        for i in 0..n {
            self.def = i;
            defs.push(self.def());
        }
        let mut imports: Vec<_> = self.used.iter().map(|i| self.names[*i].clone()).collect();
        for i in 0..self.names.len() {
            if i != self.schema && !self.used.contains(&i) && self.s.chance(1, 4) {
                imports.push(self.names[i].clone());
            }
        }
        // any order
        for i in (1..imports.len()).rev() {
            let j = self.s.us(i + 1);
            imports.swap(i, j);
        }
        let imports = imports.into_iter().map(|n| (comment_lines(self.s, &o), n)).collect();
        Schema { comment, doc, imports, defs }
    }

    fn named(&mut self, si: usize, di: usize) -> (Option<String>, String) {
        let n = self.sigs[si][di].name.clone();
        if si == self.schema {
            (None, n)
        } else {
            self.used.insert(si);
            (Some(self.names[si].clone()), n)
        }
    }

    /// A type definition; without indirection only one that comes earlier.
    fn target(&mut self, direct: bool, want: impl Fn(&Sig) -> bool) -> Option<(Option<String>, String)> {
        let here = (self.schema, self.def);
        let mut c = vec![];
        for (si, l) in self.sigs.iter().enumerate() {
            for (di, d) in l.iter().enumerate() {
                // later schemas are leaves: direct references only go to them or back
                let before = si > here.0 || (si == here.0 && di < here.1);
                if want(d) && (before || !direct) {
                    c.push((si, di));
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (si, di) = *self.s.pick(&c);
        Some(self.named(si, di))
    }

    fn key(&mut self) -> Ty {
        if self.s.chance(1, 4) {
            // only earlier newtypes: a newtype chain must end
            if let Some((m, n)) = self.target(true, |d| d.key) {
                return Ty::Ref(m, n);
            }
        }
        Ty::Prim(self.s.pick(&KEYS))
    }

    fn ty(&mut self, depth: usize, direct: bool) -> Ty {
        let k = if depth == 0 { self.s.weighted(&[5, 3]) } else { self.s.weighted(&[5, 3, 5, 2, 2, 2]) };
        match k {
            1 => {
                if let Some((m, n)) = self.target(direct, |d| matches!(d.kind, K::Struct | K::Enum | K::Newtype)) {
                    return Ty::Ref(m, n);
                }
            }
            2 => {
                let k = *self.s.pick(&ONES[..if self.v.channels { 6 } else { 4 }]);
                let inner = match k {
                    "set" => self.key(),
                    "option" => self.ty(depth - 1, direct),
                    _ => self.ty(depth - 1, false),
                };
                return Ty::One(k, Box::new(inner));
            }
            3 => {
                let a = self.key();
                return Ty::Map(Box::new(a), Box::new(self.ty(depth - 1, false)));
            }
            4 => return Ty::Result(Box::new(self.ty(depth - 1, direct)), Box::new(self.ty(depth - 1, direct))),
            5 => {
                let t = Box::new(self.ty(depth - 1, direct));
                let max = self.v.array_max;
                if self.s.bool() {
                    if let Some((m, n)) = self.target(false, |d| d.const_len.is_some()) {
                        return Ty::Array(t, Len::Ref(m, n));
                    }
                }
                let n = 1 + self.s.below(max);
                return Ty::Array(t, Len::Lit(n.to_string()));
            }
            _ => {}
        }
        loop {
            let p = *self.s.pick(&PRIMS);
            if p != "lifetime" || self.v.channels {
                return Ty::Prim(p);
            }
        }
    }

    fn member(&mut self, used: &mut BTreeSet<String>, i: usize, camel: bool) -> String {
        let mut n = if self.v.odd_names && self.s.chance(1, 3) {
            if camel && self.s.bool() {
                self.s.pick(&["None", "Some", "Ok", "Err", "Type", "Vec"]).to_string()
            } else if self.s.bool() {
                self.s.pick(&KEYWORDS).to_string()
            } else {
                self.s.pick(&FIELD_NAMES).to_string()
            }
        } else if camel {
            format!("{}{i}", self.s.pick(&["Var", "V", "Abc", "XyZ"]))
        } else {
            format!("{}{i}", self.s.pick(&["field", "f", "some_", "x_y"]))
        };
        // generated names ignore case and underscores
        let fold = |n: &str| n.replace('_', "").to_lowercase();
        while used.contains(&fold(&n)) {
            n.push('q');
        }
        used.insert(fold(&n));
        n
    }

    fn id(&mut self, used: &mut BTreeSet<u64>, i: usize) -> String {
        let mut id = if self.s.chance(3, 4) { i as u64 } else { self.s.int(32) };
        while !used.insert(id) {
            id = (id + 1) & 0xffff_ffff;
        }
        id.to_string()
    }

    fn fallback(&mut self, used: &mut BTreeSet<String>, camel: bool) -> Option<Fallback> {
        let o = self.v.o;
        self.s.chance(1, 3).then(|| {
            let p = pre(self.s, &o, false);
            let name = self.member(used, 77, camel);
            Fallback { pre: p, name }
        })
    }

    fn fields(&mut self) -> (Vec<Field>, Option<Fallback>) {
        let o = self.v.o;
        let n = self.s.small(6);
        let (mut names, mut ids) = (BTreeSet::new(), BTreeSet::new());
        let f = (0..n)
            .map(|i| {
                let required = self.s.bool();
                let name = self.member(&mut names, i, false);
                let depth = self.v.depth;
                Field { pre: pre(self.s, &o, false), required, name, id: self.id(&mut ids, i), ty: self.ty(depth, true) }
            })
            .collect();
        let fb = self.fallback(&mut names, false);
        (f, fb)
    }

    fn vars(&mut self) -> (Vec<Variant>, Option<Fallback>) {
        let o = self.v.o;
        let n = self.s.small(6);
        let (mut names, mut ids) = (BTreeSet::new(), BTreeSet::new());
        let mut v: Vec<_> = (0..n)
            .map(|i| {
                let name = self.member(&mut names, i, true);
                let depth = self.v.depth;
                let ty = if self.s.bool() { Some(self.ty(depth, true)) } else { None };
                Variant { pre: pre(self.s, &o, false), name, id: self.id(&mut ids, i), ty }
            })
            .collect();
        let fb = self.fallback(&mut names, true);
        if v.is_empty() && fb.is_none() {
            v.push(Variant { pre: Pre::default(), name: "Only".into(), id: "0".into(), ty: None });
        }
        (v, fb)
    }

    fn inline(&mut self) -> Inline {
        let o = self.v.o;
        match self.s.below(3) {
            0 => {
                let d = self.v.depth;
                Inline::Ty(self.ty(d, false))
            }
            1 => {
                let (f, fb) = self.fields();
                Inline::Struct(inline_pre(self.s, &o), f, fb)
            }
            _ => {
                let (v, fb) = self.vars();
                Inline::Enum(inline_pre(self.s, &o), v, fb)
            }
        }
    }

    fn part(&mut self) -> Option<FnPart> {
        let o = self.v.o;
        if self.s.bool() {
            Some(FnPart { comment: comment_lines(self.s, &o), ty: self.inline() })
        } else {
            None
        }
    }

    fn def(&mut self) -> Def {
        let o = self.v.o;
        let (kind, name, key, len) = {
            let d = &self.sigs[self.schema][self.def];
            (d.kind, d.name.clone(), d.key, d.const_len)
        };
        match kind {
            K::Struct => {
                let (fields, fallback) = self.fields();
                Def::Struct { pre: pre(self.s, &o, true), name, fields, fallback }
            }
            K::Enum => {
                let (vars, fallback) = self.vars();
                Def::Enum { pre: pre(self.s, &o, true), name, vars, fallback }
            }
            K::Service => {
                let n = self.s.small(5);
                let (mut names, mut fns, mut evs) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
                let mut items = vec![];
                for i in 0..n {
                    let name = self.member(&mut names, i, false);
                    let p = pre(self.s, &o, false);
                    items.push(if self.s.bool() {
                        let id = self.id(&mut fns, i);
                        Item::Fn { pre: p, name, id, args: self.part(), ok: self.part(), err: self.part() }
                    } else {
                        let id = self.id(&mut evs, i);
                        let ty = if self.s.bool() { Some(self.inline()) } else { None };
                        Item::Ev { pre: p, name, id, ty }
                    });
                }
                let fn_fallback = self.fallback(&mut names, false);
                let ev_fallback = self.fallback(&mut names, false);
                Def::Service(Svc {
                    pre: pre(self.s, &o, false),
                    name,
                    uuid_comment: comment_lines(self.s, &o),
                    uuid: format!(
                        "{:08x}-{:04x}-4{:03x}-8{:03x}-{:012x}",
                        self.s.below(1 << 32),
                        self.schema,
                        self.def,
                        self.s.below(1 << 12),
                        self.s.below(1 << 48)
                    ),
                    ver_comment: comment_lines(self.s, &o),
                    ver: self.s.int(32).to_string(),
                    items,
                    fn_fallback,
                    ev_fallback,
                })
            }
            K::Const => {
                let p = pre(self.s, &o, false);
                let (kind, val): (&'static str, String) = match len {
                    Some(n) => (*self.s.pick(&INTS), n.to_string()),
                    None => match self.s.below(4) {
                        0 => ("uuid", uuid(self.s)),
                        1 => ("string", {
                            let n = self.s.small(5);
                            let mut t = String::from("\"");
                            for _ in 0..n {
                                t.push_str(self.s.pick(&["a", " ", "\\\\", "\\\"", "//", "名", "{}", "'", ";", "\t", "{x}"]));
                            }
                            t.push('"');
                            t
                        }),
                        _ => {
                            let (k, v) = *self.s.pick(&[
                                ("u8", "255"),
                                ("i8", "-128"),
                                ("i8", "127"),
                                ("u16", "65535"),
                                ("i16", "-32768"),
                                ("u32", "4294967295"),
                                ("i32", "-2147483648"),
                                ("u64", "18446744073709551615"),
                                ("i64", "-9223372036854775808"),
                                ("u8", "0"),
                                ("i8", "-0"),
                                ("u64", "007"),
                            ]);
                            (k, v.to_string())
                        }
                    },
                };
                Def::Const { pre: p, name, kind, val }
            }
            K::Newtype => {
                let d = self.v.depth;
                let ty = if key { self.key() } else { self.ty(d, true) };
                Def::Newtype { pre: pre(self.s, &o, true), name, ty }
            }
        }
    }
}

const RING_NAMES: [&str; 4] = ["Aa", "Bb", "Cc", "Dd"];

/// A few small definitions in up to three schemas, all referring to each other. `wrong` out of 16 references are to
/// something that does not exist or cannot be meant, about as many keys are no key types.
pub fn rings(s: &mut Src, wrong: u64) -> Vec<(String, Schema)> {
    let n = s.range(1, 3);
    let shape: Vec<Vec<usize>> = (0..n)
        .map(|_| (0..s.range(1, 4)).map(|_| s.weighted(&[8, 5, 8, 2, 1])).collect())
        .collect();
    let boxed = s.below(9);
    (0..n)
        .map(|i| {
            let mut g = Ring { s, wrong, shape: &shape, at: i, boxed };
            let defs = (0..shape[i].len()).map(|k| g.def(k)).collect();
            let imports = (0..n)
                .filter(|k| *k != i)
                .map(|k| (vec![], VALID_NAMES[k].to_string()))
                .filter(|_| wrong == 0 || !s.chance(wrong, 64))
                .collect();
            (VALID_NAMES[i].to_string(), Schema { imports, defs, ..Schema::default() })
        })
        .collect()
}

struct Ring<'a, 'b> {
    s: &'a mut Src,
    wrong: u64,
    shape: &'b [Vec<usize>],
    at: usize,
    boxed: u64,
}

impl Ring<'_, '_> {
    fn named(&mut self, kinds: &[usize]) -> Option<(Option<String>, String)> {
        if self.wrong > 0 && self.s.chance(self.wrong, 16) {
            let m = s_opt(self.s, &["main_schema", "other", "third_one", "nowhere"]);
            return Some((m, self.s.pick(&["Aa", "Bb", "Nope", "Dd"]).to_string()));
        }
        let mut c = vec![];
        for (i, l) in self.shape.iter().enumerate() {
            c.extend(l.iter().enumerate().filter(|x| kinds.contains(x.1)).map(|(k, _)| (i, k)));
        }
        if c.is_empty() {
            return None;
        }
        let (i, k) = *self.s.pick(&c);
        let m = (i != self.at).then(|| VALID_NAMES[i].to_string());
        let n = if self.shape[i][k] == 3 { format!("C{k}") } else { RING_NAMES[k].to_string() };
        Some((m, n))
    }

    fn key(&mut self) -> Ty {
        if self.s.chance(2, 3) {
            let kinds: &[usize] = if self.s.chance(self.wrong, 16) { &[0, 1, 2, 3, 4] } else { &[2] };
            if let Some((m, n)) = self.named(kinds) {
                return Ty::Ref(m, n);
            }
        }
        if self.s.chance(self.wrong, 32) {
            return self.ty(1);
        }
        Ty::Prim(self.s.pick(&KEYS))
    }

    fn ty(&mut self, depth: usize) -> Ty {
        if depth > 0 && self.s.chance(self.boxed, 10) {
            let k = *self.s.pick(&["box", "vec", "box", "sender"]);
            return Ty::One(k, Box::new(self.ty(depth - 1)));
        }
        match if depth == 0 { self.s.weighted(&[6, 2]) } else { self.s.weighted(&[8, 2, 2, 2, 2, 2, 2]) } {
            0 => match self.named(&[0, 1, 2]) {
                Some((m, n)) => Ty::Ref(m, n),
                None => Ty::Prim("u8"),
            },
            1 => Ty::Prim(self.s.pick(&PRIMS)),
            2 => Ty::One("option", Box::new(self.ty(depth - 1))),
            3 => Ty::One("set", Box::new(self.key())),
            4 => Ty::Map(Box::new(self.key()), Box::new(self.ty(depth - 1))),
            5 => Ty::Result(Box::new(self.ty(depth - 1)), Box::new(self.ty(depth - 1))),
            _ => {
                let t = Box::new(self.ty(depth - 1));
                let kinds: &[usize] = if self.s.chance(self.wrong, 16) { &[0, 2, 3, 4] } else { &[3] };
                match self.named(kinds) {
                    Some((m, n)) => Ty::Array(t, Len::Ref(m, n)),
                    None => Ty::Array(t, Len::Lit("3".into())),
                }
            }
        }
    }

    fn def(&mut self, k: usize) -> Def {
        let pre = Pre::default();
        let name = RING_NAMES[k].to_string();
        let field = |g: &mut Self, i: usize| Field {
            pre: Pre::default(),
            required: g.s.bool(),
            name: format!("f{i}"),
            id: i.to_string(),
            ty: g.ty(2),
        };
        match self.shape[self.at][k] {
            0 => Def::Struct { pre, name, fields: (0..self.s.range(0, 2)).map(|i| field(self, i)).collect(), fallback: None },
            1 => Def::Enum {
                pre,
                name,
                vars: (0..self.s.range(1, 2))
                    .map(|i| Variant { pre: Pre::default(), name: format!("V{i}"), id: i.to_string(), ty: Some(self.ty(2)) })
                    .collect(),
                fallback: None,
            },
            2 => Def::Newtype { pre, name, ty: if self.s.chance(1, 4) { Ty::Prim(self.s.pick(&KEYS)) } else { self.ty(1) } },
            3 => Def::Const { pre, name: format!("C{k}"), kind: self.s.pick(&["u8", "i64", "u32"]), val: self.s.pick(&["2", "1", "5"]).to_string() },
            _ => Def::Service(Svc {
                pre,
                name,
                uuid_comment: vec![],
                uuid: format!("7c0a9ccf-0c4c-4b1d-b4b5-0c5a1ff8e{}b{k}", self.at),
                ver_comment: vec![],
                ver: "1".into(),
                items: vec![
                    Item::Fn {
                        pre: Pre::default(),
                        name: "f".into(),
                        id: "1".into(),
                        args: Some(FnPart { comment: vec![], ty: Inline::Ty(self.ty(2)) }),
                        ok: Some(FnPart { comment: vec![], ty: Inline::Struct(Pre::default(), vec![field(self, 0)], None) }),
                        err: None,
                    },
                    Item::Ev { pre: Pre::default(), name: "e".into(), id: "1".into(), ty: Some(Inline::Ty(self.ty(2))) },
                ],
                fn_fallback: None,
                ev_fallback: None,
            }),
        }
    }
}

fn s_opt(s: &mut Src, l: &[&str]) -> Option<String> {
    s.bool().then(|| s.pick(l).to_string())
}

/// Every type of a definition.
fn types_of(d: &mut Def) -> Vec<&mut Ty> {
    fn inline(i: &mut Inline) -> Vec<&mut Ty> {
        match i {
            Inline::Ty(t) => vec![t],
            Inline::Struct(_, f, _) => f.iter_mut().map(|f| &mut f.ty).collect(),
            Inline::Enum(_, v, _) => v.iter_mut().filter_map(|v| v.ty.as_mut()).collect(),
        }
    }
    match d {
        Def::Struct { fields, .. } => fields.iter_mut().map(|f| &mut f.ty).collect(),
        Def::Enum { vars, .. } => vars.iter_mut().filter_map(|v| v.ty.as_mut()).collect(),
        Def::Newtype { ty, .. } => vec![ty],
        Def::Const { .. } => vec![],
        Def::Service(v) => v
            .items
            .iter_mut()
            .flat_map(|i| match i {
                Item::Fn { args, ok, err, .. } => [args, ok, err].into_iter().flatten().flat_map(|p| inline(&mut p.ty)).collect::<Vec<_>>(),
                Item::Ev { ty, .. } => ty.iter_mut().flat_map(inline).collect(),
            })
            .collect(),
    }
}

/// Something that may well make the schemas invalid.
pub fn fault(s: &mut Src, set: &mut [(String, Schema)]) {
    let i = s.us(set.len());
    let names: Vec<(String, String)> = set.iter().flat_map(|(n, x)| x.defs.iter().map(|d| (n.clone(), d.name().to_string()))).collect();
    let me = set[i].0.clone();
    let defs = &mut set[i].1.defs;
    let k = s.us(defs.len());
    let id = |s: &mut Src| s.pick(&["0", "1", "2", "00", "-1", "4294967295", "4294967296", "007"]).to_string();
    match s.below(12) {
        0 => {
            let (m, n) = s.pick(&names).clone();
            let extern_ = m != me || s.bool();
            let n = if s.chance(1, 4) { "Nope".into() } else { n };
            let r = (extern_.then_some(m), n);
            let all = types_of(&mut defs[k]);
            if !all.is_empty() {
                let j = s.us(all.len());
                let t = all.into_iter().nth(j).unwrap();
                *t = match s.below(6) {
                    0 => Ty::One("set", Box::new(Ty::Ref(r.0, r.1))),
                    1 => Ty::Map(Box::new(Ty::Ref(r.0, r.1)), Box::new(Ty::Prim("u8"))),
                    2 => Ty::Array(Box::new(Ty::Prim("u8")), Len::Ref(r.0, r.1)),
                    3 => Ty::One("option", Box::new(Ty::Ref(r.0, r.1))),
                    _ => Ty::Ref(r.0, r.1),
                };
            }
        }
        1 => {
            let l = s.pick(&["0", "-1", "1", "4294967295", "4294967296", "2147483648", "00", "-0"]).to_string();
            let all = types_of(&mut defs[k]);
            if !all.is_empty() {
                let j = s.us(all.len());
                *all.into_iter().nth(j).unwrap() = Ty::One("option", Box::new(Ty::One("box", Box::new(Ty::Array(Box::new(Ty::Prim("unit")), Len::Lit(l))))));
            }
        }
        2 => {
            let n = defs[s.us(defs.len())].name().to_string();
            match &mut defs[k] {
                Def::Struct { name, .. } | Def::Enum { name, .. } | Def::Const { name, .. } | Def::Newtype { name, .. } => *name = n,
                Def::Service(v) => v.name = n,
            }
        }
        3 | 4 => match &mut defs[k] {
            Def::Struct { fields, fallback, .. } if !fields.is_empty() => {
                let (a, b) = (s.us(fields.len()), s.us(fields.len()));
                match s.below(4) {
                    0 => fields[a].name = fields[b].name.clone(),
                    1 => fields[a].id = fields[b].id.clone(),
                    2 => fields[a].id = id(s),
                    _ => *fallback = Some(Fallback { pre: Pre::default(), name: fields[a].name.clone() }),
                }
            }
            Def::Enum { vars, fallback, .. } if !vars.is_empty() => {
                let (a, b) = (s.us(vars.len()), s.us(vars.len()));
                match s.below(5) {
                    0 => vars[a].name = vars[b].name.clone(),
                    1 => vars[a].id = vars[b].id.clone(),
                    2 => vars[a].id = id(s),
                    3 => vars.clear(),
                    _ => *fallback = Some(Fallback { pre: Pre::default(), name: vars[a].name.clone() }),
                }
            }
            Def::Const { kind, val, .. } => {
                *kind = s.pick(&INTS);
                *val = s.pick(&["0", "-1", "127", "128", "255", "256", "-128", "-129", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "-0", "007"]).to_string();
            }
            _ => {}
        },
        5..=8 => {
            let Some(v) = defs.iter_mut().find_map(|d| match d {
                Def::Service(v) => Some(v),
                _ => None,
            }) else {
                return;
            };
            if v.items.is_empty() || s.chance(1, 6) {
                match s.below(3) {
                    0 => v.ver = s.pick(&["0", "-1", "4294967295", "4294967296", "01"]).to_string(),
                    1 => v.uuid = s.pick(&["00000000-0000-0000-0000-000000000000", "FFFFFFFF-ffff-FFFF-ffff-FFFFFFFFFFFF"]).to_string(),
                    _ => {}
                }
                return;
            }
            let (a, b) = (s.us(v.items.len()), s.us(v.items.len()));
            let (n2, id2) = match &v.items[b] {
                Item::Fn { name, id, .. } | Item::Ev { name, id, .. } => (name.clone(), id.clone()),
            };
            let by_name = s.below(4);
            match &mut v.items[a] {
                Item::Fn { name, id: i, .. } | Item::Ev { name, id: i, .. } => match by_name {
                    0 => *name = n2,
                    1 => *i = id2,
                    2 => *i = id(s),
                    _ => {
                        let f = Some(Fallback { pre: Pre::default(), name: n2 });
                        if s.bool() {
                            v.fn_fallback = f
                        } else {
                            v.ev_fallback = f
                        }
                    }
                },
            }
        }
        9 => {
            let im = &mut set[i].1.imports;
            if !im.is_empty() {
                let j = s.us(im.len());
                match s.below(3) {
                    0 => drop(im.remove(j)),
                    1 => im[j].1 = "nowhere".into(),
                    _ => {
                        let x = im[j].clone();
                        im.push(x)
                    }
                }
            }
        }
        10 => set[i].1.imports.push((vec![], me)),
        _ => {
            let all = types_of(&mut defs[k]);
            if !all.is_empty() {
                let j = s.us(all.len());
                let t = all.into_iter().nth(j).unwrap();
                let k = Ty::Prim(s.pick(&PRIMS));
                let k = if s.bool() { k } else { Ty::One(s.pick(&ONES), Box::new(k)) };
                *t = Ty::One("set", Box::new(k));
            }
        }
    }
}
