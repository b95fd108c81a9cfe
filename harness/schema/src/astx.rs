//! What the parser under test read, as a model.
use crate::model::*;
use aldrin_parser::ast;

/// The text after the marker, as written in the source.
fn comments(c: &[ast::Comment]) -> Lines {
    c.iter().map(|c| cut(c.value(), 2)).collect()
}

fn docs(d: &[ast::DocString]) -> Lines {
    d.iter().map(|d| cut(d.value(), 3)).collect()
}

fn cut(s: &str, n: usize) -> String {
    s[n..].trim_end_matches(['\n', '\r']).to_owned()
}

fn attrs(a: &[ast::Attribute]) -> Vec<(String, Vec<String>)> {
    a.iter()
        .map(|a| (a.name().value().to_owned(), a.options().iter().map(|o| o.value().to_owned()).collect()))
        .collect()
}

fn pre(c: &[ast::Comment], d: &[ast::DocString], a: &[ast::Attribute]) -> Pre {
    Pre { comment: comments(c), doc: docs(d), attrs: attrs(a) }
}

fn named(r: &ast::NamedRef) -> (Option<String>, String) {
    match r.kind() {
        ast::NamedRefKind::Intern(i) => (None, i.value().to_owned()),
        ast::NamedRefKind::Extern(s, i) => (Some(s.value().to_owned()), i.value().to_owned()),
    }
}

fn one(k: &'static str, t: &ast::TypeName) -> Ty {
    Ty::One(k, Box::new(ty(t)))
}

pub fn ty(t: &ast::TypeName) -> Ty {
    use ast::TypeNameKind::*;
    match t.kind() {
        Bool => Ty::Prim("bool"),
        U8 => Ty::Prim("u8"),
        I8 => Ty::Prim("i8"),
        U16 => Ty::Prim("u16"),
        I16 => Ty::Prim("i16"),
        U32 => Ty::Prim("u32"),
        I32 => Ty::Prim("i32"),
        U64 => Ty::Prim("u64"),
        I64 => Ty::Prim("i64"),
        F32 => Ty::Prim("f32"),
        F64 => Ty::Prim("f64"),
        String => Ty::Prim("string"),
        Uuid => Ty::Prim("uuid"),
        ObjectId => Ty::Prim("object_id"),
        ServiceId => Ty::Prim("service_id"),
        Value => Ty::Prim("value"),
        Bytes => Ty::Prim("bytes"),
        Lifetime => Ty::Prim("lifetime"),
        Unit => Ty::Prim("unit"),
        Option(t) => one("option", t),
        Box(t) => one("box", t),
        Vec(t) => one("vec", t),
        Set(t) => one("set", t),
        Sender(t) => one("sender", t),
        Receiver(t) => one("receiver", t),
        Map(a, b) => Ty::Map(std::boxed::Box::new(ty(a)), std::boxed::Box::new(ty(b))),
        Result(a, b) => Ty::Result(std::boxed::Box::new(ty(a)), std::boxed::Box::new(ty(b))),
        Array(t, l) => Ty::Array(
            std::boxed::Box::new(ty(t)),
            match l.value() {
                ast::ArrayLenValue::Literal(l) => Len::Lit(l.value().to_owned()),
                ast::ArrayLenValue::Ref(r) => {
                    let (m, n) = named(r);
                    Len::Ref(m, n)
                }
            },
        ),
        Ref(r) => {
            let (m, n) = named(r);
            Ty::Ref(m, n)
        }
    }
}

fn fields(f: &[ast::StructField]) -> Vec<Field> {
    f.iter()
        .map(|f| Field {
            pre: pre(f.comment(), f.doc(), &[]),
            required: f.required(),
            name: f.name().value().to_owned(),
            id: f.id().value().to_owned(),
            ty: ty(f.field_type()),
        })
        .collect()
}

fn vars(v: &[ast::EnumVariant]) -> Vec<Variant> {
    v.iter()
        .map(|v| Variant {
            pre: pre(v.comment(), v.doc(), &[]),
            name: v.name().value().to_owned(),
            id: v.id().value().to_owned(),
            ty: v.variant_type().map(ty),
        })
        .collect()
}

macro_rules! fallback {
    ($f:expr) => {
        $f.map(|f| Fallback { pre: pre(f.comment(), f.doc(), &[]), name: f.name().value().to_owned() })
    };
}

fn inline(i: &ast::TypeNameOrInline) -> Inline {
    match i {
        ast::TypeNameOrInline::TypeName(t) => Inline::Ty(ty(t)),
        ast::TypeNameOrInline::Struct(s) => {
            Inline::Struct(pre(&[], s.doc(), s.attributes()), fields(s.fields()), fallback!(s.fallback()))
        }
        ast::TypeNameOrInline::Enum(e) => {
            Inline::Enum(pre(&[], e.doc(), e.attributes()), vars(e.variants()), fallback!(e.fallback()))
        }
    }
}

fn part(p: Option<&ast::FunctionPart>) -> Option<FnPart> {
    p.map(|p| FnPart { comment: comments(p.comment()), ty: inline(p.part_type()) })
}

fn def(d: &ast::Definition) -> Def {
    match d {
        ast::Definition::Struct(s) => Def::Struct {
            pre: pre(s.comment(), s.doc(), s.attributes()),
            name: s.name().value().to_owned(),
            fields: fields(s.fields()),
            fallback: fallback!(s.fallback()),
        },
        ast::Definition::Enum(e) => Def::Enum {
            pre: pre(e.comment(), e.doc(), e.attributes()),
            name: e.name().value().to_owned(),
            vars: vars(e.variants()),
            fallback: fallback!(e.fallback()),
        },
        ast::Definition::Service(s) => Def::Service(Svc {
            pre: pre(s.comment(), s.doc(), &[]),
            name: s.name().value().to_owned(),
            uuid_comment: comments(s.uuid_comment()),
            uuid: s.uuid().value().to_owned(),
            ver_comment: comments(s.version_comment()),
            ver: s.version().value().to_owned(),
            items: s
                .items()
                .iter()
                .map(|i| match i {
                    ast::ServiceItem::Function(f) => Item::Fn {
                        pre: pre(f.comment(), f.doc(), &[]),
                        name: f.name().value().to_owned(),
                        id: f.id().value().to_owned(),
                        args: part(f.args()),
                        ok: part(f.ok()),
                        err: part(f.err()),
                    },
                    ast::ServiceItem::Event(e) => Item::Ev {
                        pre: pre(e.comment(), e.doc(), &[]),
                        name: e.name().value().to_owned(),
                        id: e.id().value().to_owned(),
                        ty: e.event_type().map(inline),
                    },
                })
                .collect(),
            fn_fallback: fallback!(s.function_fallback()),
            ev_fallback: fallback!(s.event_fallback()),
        }),
        ast::Definition::Const(c) => {
            use ast::ConstValue::*;
            let (kind, val) = match c.value() {
                U8(v) => ("u8", v.value()),
                I8(v) => ("i8", v.value()),
                U16(v) => ("u16", v.value()),
                I16(v) => ("i16", v.value()),
                U32(v) => ("u32", v.value()),
                I32(v) => ("i32", v.value()),
                U64(v) => ("u64", v.value()),
                I64(v) => ("i64", v.value()),
                String(v) => ("string", v.value()),
                Uuid(v) => ("uuid", v.value()),
            };
            Def::Const {
                pre: pre(c.comment(), c.doc(), &[]),
                name: c.name().value().to_owned(),
                kind,
                val: val.to_owned(),
            }
        }
        ast::Definition::Newtype(n) => Def::Newtype {
            pre: pre(n.comment(), n.doc(), n.attributes()),
            name: n.name().value().to_owned(),
            ty: ty(n.target_type()),
        },
    }
}

pub fn schema(s: &aldrin_parser::Schema) -> Schema {
    Schema {
        comment: comments(s.comment()),
        doc: docs(s.doc()),
        imports: s.imports().iter().map(|i| (comments(i.comment()), i.schema_name().value().to_owned())).collect(),
        defs: s.definitions().iter().map(def).collect(),
    }
}
