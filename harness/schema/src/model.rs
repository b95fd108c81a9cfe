//! A schema as it is meant to be read, independent of the parser under test.
#![allow(dead_code)]

pub type Lines = Vec<String>;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Pre {
    pub comment: Lines,
    pub doc: Lines,
    pub attrs: Vec<(String, Vec<String>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Prim(&'static str),
    /// option, box, vec, set, sender, receiver
    One(&'static str, Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Result(Box<Ty>, Box<Ty>),
    Array(Box<Ty>, Len),
    Ref(Option<String>, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Len {
    Lit(String),
    Ref(Option<String>, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub pre: Pre,
    pub required: bool,
    pub name: String,
    pub id: String,
    pub ty: Ty,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Variant {
    pub pre: Pre,
    pub name: String,
    pub id: String,
    pub ty: Option<Ty>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fallback {
    pub pre: Pre,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Inline {
    Ty(Ty),
    Struct(Pre, Vec<Field>, Option<Fallback>),
    Enum(Pre, Vec<Variant>, Option<Fallback>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct FnPart {
    pub comment: Lines,
    pub ty: Inline,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Fn { pre: Pre, name: String, id: String, args: Option<FnPart>, ok: Option<FnPart>, err: Option<FnPart> },
    Ev { pre: Pre, name: String, id: String, ty: Option<Inline> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Struct { pre: Pre, name: String, fields: Vec<Field>, fallback: Option<Fallback> },
    Enum { pre: Pre, name: String, vars: Vec<Variant>, fallback: Option<Fallback> },
    Service(Svc),
    Const { pre: Pre, name: String, kind: &'static str, val: String },
    Newtype { pre: Pre, name: String, ty: Ty },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Svc {
    pub pre: Pre,
    pub name: String,
    pub uuid_comment: Lines,
    pub uuid: String,
    pub ver_comment: Lines,
    pub ver: String,
    pub items: Vec<Item>,
    pub fn_fallback: Option<Fallback>,
    pub ev_fallback: Option<Fallback>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Schema {
    pub comment: Lines,
    pub doc: Lines,
    pub imports: Vec<(Lines, String)>,
    pub defs: Vec<Def>,
}

impl Def {
    pub fn name(&self) -> &str {
        match self {
            Def::Struct { name, .. } | Def::Enum { name, .. } | Def::Const { name, .. } | Def::Newtype { name, .. } => name,
            Def::Service(s) => &s.name,
        }
    }
}

pub const PRIMS: [&str; 19] = [
    "bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string", "uuid", "object_id",
    "service_id", "value", "bytes", "lifetime", "unit",
];
pub const KEYS: [&str; 10] = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "string", "uuid"];
pub const ONES: [&str; 6] = ["option", "box", "vec", "set", "sender", "receiver"];
pub const INTS: [&str; 8] = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"];

/// What the text after a comment or doc marker says: at most one leading blank and all trailing
/// white space are layout.
pub fn text(s: &str) -> String {
    s.strip_prefix(' ').unwrap_or(s).trim_end().to_owned()
}

/// Applies `f` to the text of every comment and doc comment.
pub fn map_lines(s: &mut Schema, f: &dyn Fn(&str) -> String) {
    fn lines(l: &mut Lines, f: &dyn Fn(&str) -> String) {
        for x in l {
            *x = f(x);
        }
    }
    fn pre(p: &mut Pre, f: &dyn Fn(&str) -> String) {
        lines(&mut p.comment, f);
        lines(&mut p.doc, f);
    }
    fn fields(fs: &mut [Field], fb: &mut Option<Fallback>, f: &dyn Fn(&str) -> String) {
        fs.iter_mut().for_each(|x| pre(&mut x.pre, f));
        fb.iter_mut().for_each(|x| pre(&mut x.pre, f));
    }
    fn vars(vs: &mut [Variant], fb: &mut Option<Fallback>, f: &dyn Fn(&str) -> String) {
        vs.iter_mut().for_each(|x| pre(&mut x.pre, f));
        fb.iter_mut().for_each(|x| pre(&mut x.pre, f));
    }
    fn inline(i: &mut Inline, f: &dyn Fn(&str) -> String) {
        match i {
            Inline::Ty(_) => {}
            Inline::Struct(p, fs, fb) => {
                pre(p, f);
                fields(fs, fb, f);
            }
            Inline::Enum(p, vs, fb) => {
                pre(p, f);
                vars(vs, fb, f);
            }
        }
    }
    lines(&mut s.comment, f);
    lines(&mut s.doc, f);
    for (c, _) in &mut s.imports {
        lines(c, f);
    }
    for d in &mut s.defs {
        match d {
            Def::Struct { pre: p, fields: fs, fallback, .. } => {
                pre(p, f);
                fields(fs, fallback, f);
            }
            Def::Enum { pre: p, vars: vs, fallback, .. } => {
                pre(p, f);
                vars(vs, fallback, f);
            }
            Def::Service(v) => {
                pre(&mut v.pre, f);
                lines(&mut v.uuid_comment, f);
                lines(&mut v.ver_comment, f);
                v.fn_fallback.iter_mut().for_each(|x| pre(&mut x.pre, f));
                v.ev_fallback.iter_mut().for_each(|x| pre(&mut x.pre, f));
                for i in &mut v.items {
                    match i {
                        Item::Fn { pre: p, args, ok, err, .. } => {
                            pre(p, f);
                            for x in [args, ok, err].into_iter().flatten() {
                                lines(&mut x.comment, f);
                                inline(&mut x.ty, f);
                            }
                        }
                        Item::Ev { pre: p, ty, .. } => {
                            pre(p, f);
                            ty.iter_mut().for_each(|t| inline(t, f));
                        }
                    }
                }
            }
            Def::Const { pre: p, .. } | Def::Newtype { pre: p, .. } => pre(p, f),
        }
    }
}

/// Imports are a set: sorted by name, equal names in their order.
pub fn sort_imports(s: &mut Schema) {
    s.imports.sort_by(|a, b| a.1.cmp(&b.1));
}

/// The schema as it is to be compared.
pub fn canonical(s: &Schema) -> Schema {
    let mut s = s.clone();
    map_lines(&mut s, &text);
    sort_imports(&mut s);
    s
}

/// Where two schemas differ, for reports.
pub fn diff(a: &Schema, b: &Schema) -> String {
    if a.comment != b.comment {
        return format!("schema comments: {:?} and {:?}", a.comment, b.comment);
    }
    if a.doc != b.doc {
        return format!("schema docs: {:?} and {:?}", a.doc, b.doc);
    }
    if a.imports != b.imports {
        return format!("imports: {:?} and {:?}", a.imports, b.imports);
    }
    for (x, y) in a.defs.iter().zip(&b.defs) {
        if x != y {
            return format!("definitions:\n {x:?}\nand\n {y:?}");
        }
    }
    format!("{} definitions and {}", a.defs.len(), b.defs.len())
}
