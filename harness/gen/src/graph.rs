//! Introspection of a set of schemas, built by hand: a graph of layouts with an independent
//! description of each.
use crate::model::{Def, Fallback, Field, FnPart, Inline, Item, Len, Pre, Schema, Ty, Variant};
use aldrin_codegen::rust::names;
use aldrin_core::introspection::ir::*;
use aldrin_core::introspection::{BuiltInType, Layout, DynIntrospectable, Introspectable, LexicalId, References};
use aldrin_core::{ServiceUuid, TypeId};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use vp::Src;

pub struct Node {
    pub layout: LayoutIr,
    pub id: LexicalId,
    pub refs: Vec<usize>,
    /// Schema and name; `None` for built-in types.
    pub custom: Option<(String, String)>,
    pub service: bool,
    /// Everything about it that matters.
    pub text: String,
    pub lines: Vec<Line<usize>>,
}

/// One line of a type's definition.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Line<T> {
    pub kind: &'static str,
    pub id: u32,
    pub name: String,
    pub required: bool,
    pub types: Vec<Option<T>>,
}

fn line<T>(kind: &'static str, id: u32, name: impl Into<String>, types: Vec<Option<T>>) -> Line<T> {
    Line { kind, id, name: name.into(), required: false, types }
}

/// What a record says, without documentation.
pub fn lines(l: &Layout) -> Vec<Line<TypeId>> {
    let mut v = vec![];
    match l {
        Layout::BuiltIn(b) => {
            use BuiltInType as I;
            let (n, t) = match *b {
                I::Bool => ("bool", vec![]),
                I::U8 => ("u8", vec![]),
                I::I8 => ("i8", vec![]),
                I::U16 => ("u16", vec![]),
                I::I16 => ("i16", vec![]),
                I::U32 => ("u32", vec![]),
                I::I32 => ("i32", vec![]),
                I::U64 => ("u64", vec![]),
                I::I64 => ("i64", vec![]),
                I::F32 => ("f32", vec![]),
                I::F64 => ("f64", vec![]),
                I::String => ("string", vec![]),
                I::Uuid => ("uuid", vec![]),
                I::ObjectId => ("object_id", vec![]),
                I::ServiceId => ("service_id", vec![]),
                I::Value => ("value", vec![]),
                I::Bytes => ("bytes", vec![]),
                I::Lifetime => ("lifetime", vec![]),
                I::Unit => ("unit", vec![]),
                I::Option(t) => ("option", vec![t]),
                I::Box(t) => ("box", vec![t]),
                I::Vec(t) => ("vec", vec![t]),
                I::Set(t) => ("set", vec![t]),
                I::Sender(t) => ("sender", vec![t]),
                I::Receiver(t) => ("receiver", vec![t]),
                I::Map(t) => ("map", vec![t.key(), t.value()]),
                I::Result(t) => ("result", vec![t.ok(), t.err()]),
                I::Array(t) => ("array", vec![t.elem_type()]),
            };
            let id = if let I::Array(t) = b { t.len() } else { 0 };
            v.push(line(n, id, "", t.into_iter().map(Some).collect()));
        }
        Layout::Struct(s) => {
            v.push(line("struct", 0, format!("{}::{}", s.schema(), s.name()), vec![]));
            for (k, f) in s.fields() {
                assert_eq!(*k, f.id());
                let mut l = line("field", f.id(), f.name(), vec![Some(f.field_type())]);
                l.required = f.is_required();
                v.push(l);
            }
            v.extend(s.fallback().map(|f| line("fallback", 0, f.name(), vec![])));
        }
        Layout::Enum(s) => {
            v.push(line("enum", 0, format!("{}::{}", s.schema(), s.name()), vec![]));
            for (k, f) in s.variants() {
                assert_eq!(*k, f.id());
                v.push(line("variant", f.id(), f.name(), vec![f.variant_type()]));
            }
            v.extend(s.fallback().map(|f| line("fallback", 0, f.name(), vec![])));
        }
        Layout::Newtype(s) => v.push(line("newtype", 0, format!("{}::{}", s.schema(), s.name()), vec![Some(s.target_type())])),
        Layout::Service(s) => {
            v.push(line("service", s.version(), format!("{}::{} {}", s.schema(), s.name(), s.uuid()), vec![]));
            for (k, f) in s.functions() {
                assert_eq!(*k, f.id());
                v.push(line("fn", f.id(), f.name(), vec![f.args(), f.ok(), f.err()]));
            }
            for (k, f) in s.events() {
                assert_eq!(*k, f.id());
                v.push(line("event", f.id(), f.name(), vec![f.event_type()]));
            }
            v.extend(s.function_fallback().map(|f| line("fn fallback", 0, f.name(), vec![])));
            v.extend(s.event_fallback().map(|f| line("event fallback", 0, f.name(), vec![])));
        }
    }
    v.sort();
    v
}

pub struct Graph {
    pub nodes: Vec<Node>,
}

thread_local! {
    static TABLE: RefCell<Vec<(LayoutIr, LexicalId, Vec<usize>)>> = const { RefCell::new(vec![]) };
}

/// The `N * A + B`th entry of the table.
struct At<const A: usize, const B: usize>;

const N: usize = 20;
pub const MAX: usize = N * N;

impl<const A: usize, const B: usize> Introspectable for At<A, B> {
    fn layout() -> LayoutIr {
        TABLE.with_borrow(|t| t[N * A + B].0.clone())
    }

    fn lexical_id() -> LexicalId {
        TABLE.with_borrow(|t| t[N * A + B].1)
    }

    fn add_references(references: &mut References) {
        let r = TABLE.with_borrow(|t| t[N * A + B].2.clone());
        for (i, n) in r.iter().enumerate() {
            // either way
            if i % 2 == 0 {
                references.add_dyn(at(*n));
            } else {
                references.extend([at(*n)]);
            }
        }
    }
}

fn at(i: usize) -> DynIntrospectable {
    macro_rules! row {
        ($a:literal: $($b:literal)*) => { [$(DynIntrospectable::new::<At<$a, $b>>),*] };
    }
    macro_rules! rows {
        ($($a:literal)*) => { [$(row!($a: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19)),*] };
    }
    static F: [[fn() -> DynIntrospectable; N]; N] = rows!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);
    F[i / N][i % N]()
}

impl Graph {
    /// Makes it the current graph of this thread. The order in which references are visited, and
    /// how often, is up to `s`.
    pub fn enter(&self, s: Option<&mut Src>) {
        let mut t: Vec<_> = self.nodes.iter().map(|n| (n.layout.clone(), n.id, n.refs.clone())).collect();
        if let Some(s) = s {
            for (_, _, r) in &mut t {
                shuffle(s, r);
                if !r.is_empty() && s.chance(1, 4) {
                    let again = *s.pick(r);
                    r.push(again);
                }
            }
        }
        TABLE.set(t);
    }

    pub fn ty(&self, i: usize) -> DynIntrospectable {
        at(i)
    }

    /// What the type id of a type is to depend on.
    pub fn canon(&self, i: usize) -> String {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo = self.nodes[i].refs.clone();
        let mut all = BTreeSet::new();
        while let Some(n) = todo.pop() {
            if !std::mem::replace(&mut seen[n], true) {
                all.insert(self.nodes[n].text.as_str());
                todo.extend(&self.nodes[n].refs);
            }
        }
        let mut t = format!("{}\n--\n", self.nodes[i].text);
        all.into_iter().for_each(|x| {
            t.push_str(x);
            t.push('\n');
        });
        t
    }

    pub fn find(&self, schema: &str, name: &str) -> Option<usize> {
        self.nodes.iter().position(|n| n.custom.as_ref().is_some_and(|c| c.0 == schema && c.1 == name))
    }
}

pub fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = s.us(i + 1);
        v.swap(i, j);
    }
}

type Made = (LayoutIr, String, Vec<Line<usize>>);

struct Build<'a> {
    set: &'a [(String, Schema)],
    nodes: Vec<Option<Node>>,
    /// By their text.
    builtin: HashMap<String, usize>,
    custom: HashMap<(String, String), usize>,
    schema: usize,
    refs: Vec<usize>,
}

fn doc(p: &Pre) -> String {
    p.doc.join("\n")
}

macro_rules! doc {
    ($b:expr, $d:expr) => {{
        let (b, d) = ($b, $d);
        if d.is_empty() {
            b
        } else {
            b.doc(d)
        }
    }};
}

impl Build<'_> {
    fn builtin(&mut self, t: &Ty) -> (String, LexicalId, Option<(BuiltInTypeIr, Vec<usize>)>) {
        use BuiltInTypeIr as I;
        use LexicalId as L;
        let mut r = vec![];
        let (text, id, ir) = match t {
            Ty::Prim(p) => {
                let (l, i) = match *p {
                    "bool" => (L::BOOL, I::Bool),
                    "u8" => (L::U8, I::U8),
                    "i8" => (L::I8, I::I8),
                    "u16" => (L::U16, I::U16),
                    "i16" => (L::I16, I::I16),
                    "u32" => (L::U32, I::U32),
                    "i32" => (L::I32, I::I32),
                    "u64" => (L::U64, I::U64),
                    "i64" => (L::I64, I::I64),
                    "f32" => (L::F32, I::F32),
                    "f64" => (L::F64, I::F64),
                    "string" => (L::STRING, I::String),
                    "uuid" => (L::UUID, I::Uuid),
                    "object_id" => (L::OBJECT_ID, I::ObjectId),
                    "service_id" => (L::SERVICE_ID, I::ServiceId),
                    "value" => (L::VALUE, I::Value),
                    "bytes" => (L::BYTES, I::Bytes),
                    "lifetime" => (L::LIFETIME, I::Lifetime),
                    "unit" => (L::UNIT, I::Unit),
                    p => panic!("{p}"),
                };
                (p.to_string(), l, i)
            }
            // these are the same
            Ty::One("vec", t) if **t == Ty::Prim("u8") => ("bytes".into(), L::BYTES, I::Bytes),
            Ty::One(k, t) => {
                let (x, n, l) = self.ty(t);
                r.push(n);
                let (l, i) = match *k {
                    "option" => (L::option(l), I::Option(l)),
                    "box" => (L::box_ty(l), I::Box(l)),
                    "vec" => (L::vec(l), I::Vec(l)),
                    "set" => (L::set(l), I::Set(l)),
                    "sender" => (L::sender(l), I::Sender(l)),
                    "receiver" => (L::receiver(l), I::Receiver(l)),
                    k => panic!("{k}"),
                };
                (format!("{k}<{x}>"), l, i)
            }
            Ty::Map(k, v) => {
                let ((x, n, k), (y, m, v)) = (self.ty(k), self.ty(v));
                r.extend([n, m]);
                (format!("map<{x}, {y}>"), L::map(k, v), I::Map(MapTypeIr::new(k, v)))
            }
            Ty::Result(k, v) => {
                let ((x, n, k), (y, m, v)) = (self.ty(k), self.ty(v));
                r.extend([n, m]);
                (format!("result<{x}, {y}>"), L::result(k, v), I::Result(ResultTypeIr::new(k, v)))
            }
            Ty::Array(t, len) => {
                let (x, n, l) = self.ty(t);
                r.push(n);
                let len = match len {
                    Len::Lit(n) => n.parse().unwrap(),
                    Len::Ref(m, n) => {
                        let si = m.as_ref().map_or(self.schema, |m| self.set.iter().position(|s| s.0 == *m).expect("schema"));
                        match self.set[si].1.defs.iter().find(|d| d.name() == n) {
                            Some(Def::Const { val, .. }) => val.parse().unwrap(),
                            _ => panic!("not a constant"),
                        }
                    }
                };
                (format!("[{x}; {len}]"), L::array(l, len), I::Array(ArrayTypeIr::new(l, len)))
            }
            Ty::Ref(m, n) => {
                let m = m.as_ref().unwrap_or(&self.set[self.schema].0);
                return (format!("{m}::{n}"), L::custom(m, n), None);
            }
        };
        (text, id, Some((ir, r)))
    }

    /// Its text, node and lexical id.
    fn ty(&mut self, t: &Ty) -> (String, usize, LexicalId) {
        let (text, id, ir) = self.builtin(t);
        let Some((ir, refs)) = ir else {
            let (m, n) = text.split_once("::").unwrap();
            let i = *self.custom.get(&(m.into(), n.into())).unwrap_or_else(|| panic!("no type {text}"));
            return (text, i, id);
        };
        if let Some(i) = self.builtin.get(&text) {
            return (text, *i, id);
        }
        let i = self.nodes.len();
        self.builtin.insert(text.clone(), i);
        let kind = match t {
            _ if text == "bytes" => "bytes",
            Ty::Prim(k) | Ty::One(k, _) => k,
            Ty::Map(..) => "map",
            Ty::Result(..) => "result",
            Ty::Array(..) => "array",
            Ty::Ref(..) => unreachable!(),
        };
        let len = if let BuiltInTypeIr::Array(a) = ir { a.len() } else { 0 };
        let lines = vec![line(kind, len, "", refs.iter().map(|r| Some(*r)).collect())];
        self.nodes.push(Some(Node { layout: ir.into(), id, refs, custom: None, service: false, text: text.clone(), lines }));
        (text, i, id)
    }

    /// A referenced type.
    fn rf(&mut self, t: &Ty) -> (String, LexicalId, usize) {
        let (x, n, l) = self.ty(t);
        self.refs.push(n);
        (x, l, n)
    }

    fn structure(&mut self, name: &str, d: String, f: &[Field], fb: &Option<Fallback>) -> Made {
        let schema = self.set[self.schema].0.clone();
        let mut b = doc!(StructIr::builder(&schema, name), d);
        let mut lines = vec![line("struct", 0, format!("{schema}::{name}"), vec![])];
        let mut text = vec![];
        for f in f {
            let (x, l, n) = self.rf(&f.ty);
            let id = f.id.parse().unwrap();
            let mut li = line("field", id, &f.name, vec![Some(n)]);
            li.required = f.required;
            lines.push(li);
            b = b.field(doc!(FieldIr::builder(id, &f.name, f.required, l), doc(&f.pre)).finish());
            text.push(format!("{id} {} {} {x}", f.name, f.required));
        }
        text.sort();
        if let Some(f) = fb {
            lines.push(line("fallback", 0, &f.name, vec![]));
            b = b.fallback(doc!(StructFallbackIr::builder(&f.name), doc(&f.pre)).finish());
            text.push(format!("fallback {}", f.name));
        }
        (b.finish().into(), format!("struct {schema}::{name} {text:?}"), lines)
    }

    fn choice(&mut self, name: &str, d: String, v: &[Variant], fb: &Option<Fallback>) -> Made {
        let schema = self.set[self.schema].0.clone();
        let mut b = doc!(EnumIr::builder(&schema, name), d);
        let mut lines = vec![line("enum", 0, format!("{schema}::{name}"), vec![])];
        let mut text = vec![];
        for v in v {
            let id = v.id.parse().unwrap();
            let mut i = doc!(VariantIr::builder(id, &v.name), doc(&v.pre));
            let (mut x, mut n) = (String::new(), None);
            if let Some(t) = &v.ty {
                let (y, l, m) = self.rf(t);
                i = i.variant_type(l);
                x = y;
                n = Some(m);
            }
            lines.push(line("variant", id, &v.name, vec![n]));
            b = b.variant(i.finish());
            text.push(format!("{id} {} {x}", v.name));
        }
        text.sort();
        if let Some(f) = fb {
            lines.push(line("fallback", 0, &f.name, vec![]));
            b = b.fallback(doc!(EnumFallbackIr::builder(&f.name), doc(&f.pre)).finish());
            text.push(format!("fallback {}", f.name));
        }
        (b.finish().into(), format!("enum {schema}::{name} {text:?}"), lines)
    }

    fn put(&mut self, name: &str, (layout, text, mut lines): Made) {
        lines.sort();
        let c = (self.set[self.schema].0.clone(), name.to_owned());
        let i = self.custom[&c];
        let id = LexicalId::custom(&c.0, &c.1);
        self.nodes[i] = Some(Node { layout, id, refs: std::mem::take(&mut self.refs), custom: Some(c), service: false, text, lines });
    }

    fn inline(&mut self, i: &Inline, name: &str) -> (String, LexicalId, usize) {
        match i {
            Inline::Ty(t) => return self.rf(t),
            Inline::Struct(p, f, fb) => {
                let mut outer = std::mem::take(&mut self.refs);
                let x = self.structure(name, doc(p), f, fb);
                self.put(name, x);
                std::mem::swap(&mut self.refs, &mut outer);
            }
            Inline::Enum(p, v, fb) => {
                let mut outer = std::mem::take(&mut self.refs);
                let x = self.choice(name, doc(p), v, fb);
                self.put(name, x);
                std::mem::swap(&mut self.refs, &mut outer);
            }
        }
        self.rf(&Ty::Ref(None, name.to_owned()))
    }
}

/// The names of all types and services, and what is inline in services; `None` if two are the same.
fn all(set: &[(String, Schema)]) -> Option<Vec<(String, String, bool)>> {
    let mut l: Vec<(String, String, bool)> = vec![];
    for (s, sch) in set {
        for d in &sch.defs {
            if !matches!(d, Def::Const { .. }) {
                l.push((s.clone(), d.name().into(), matches!(d, Def::Service(_))));
            }
            let Def::Service(v) = d else { continue };
            for i in &v.items {
                let mut add = |i: &Inline, n: String| {
                    if !matches!(i, Inline::Ty(_)) {
                        l.push((s.clone(), n, false));
                    }
                };
                match i {
                    Item::Fn { name, args, ok, err, .. } => {
                        let n = [names::function_args(&v.name, name), names::function_ok(&v.name, name), names::function_err(&v.name, name)];
                        for (p, n) in [args, ok, err].into_iter().zip(n) {
                            if let Some(p) = p {
                                add(&p.ty, n);
                            }
                        }
                    }
                    Item::Ev { name, ty: Some(t), .. } => add(t, names::event_args(&v.name, name)),
                    Item::Ev { .. } => {}
                }
            }
        }
    }
    let mut seen = BTreeSet::new();
    l.iter().all(|(s, n, _)| seen.insert((s, n))).then_some(l.clone())
}

/// The graph of a set; `None` if two types have the same name, or there are too many.
pub fn build(set: &[(String, Schema)]) -> Option<Graph> {
    let l = all(set)?;
    let mut b = Build { set, nodes: vec![], builtin: HashMap::new(), custom: HashMap::new(), schema: 0, refs: vec![] };
    for (s, n, _) in l {
        b.custom.insert((s, n), b.nodes.len());
        b.nodes.push(None);
    }
    for (si, (schema, sch)) in set.iter().enumerate() {
        b.schema = si;
        for d in &sch.defs {
            let x = match d {
                Def::Const { .. } => continue,
                Def::Struct { pre, name, fields, fallback } => b.structure(name, doc(pre), fields, fallback),
                Def::Enum { pre, name, vars, fallback } => b.choice(name, doc(pre), vars, fallback),
                Def::Newtype { pre, name, ty } => {
                    let (x, l, n) = b.rf(ty);
                    let lines = vec![line("newtype", 0, format!("{schema}::{name}"), vec![Some(n)])];
                    (doc!(NewtypeIr::builder(schema, name, l), doc(pre)).finish().into(), format!("newtype {schema}::{name} {x}"), lines)
                }
                Def::Service(v) => {
                    let uuid = ServiceUuid(v.uuid.parse().unwrap());
                    let mut w = doc!(ServiceIr::builder(schema, &v.name, uuid, v.ver.parse().unwrap()), doc(&v.pre));
                    let mut text = vec![];
                    let ver: u32 = v.ver.parse().unwrap();
                    let mut lines = vec![line("service", ver, format!("{schema}::{} {uuid}", v.name), vec![])];
                    for i in &v.items {
                        match i {
                            Item::Fn { pre, name, id, args, ok, err } => {
                                let id = id.parse().unwrap();
                                let mut f = doc!(FunctionIr::builder(id, name), doc(pre));
                                let mut t = format!("fn {id} {name}");
                                let mut types = vec![None; 3];
                                let part = |b: &mut Build, p: &Option<FnPart>, n: String| p.as_ref().map(|p| b.inline(&p.ty, &n));
                                if let Some((x, l, n)) = part(&mut b, args, names::function_args(&v.name, name)) {
                                    f = f.args(l);
                                    t += &format!(" args {x}");
                                    types[0] = Some(n);
                                }
                                if let Some((x, l, n)) = part(&mut b, ok, names::function_ok(&v.name, name)) {
                                    f = f.ok(l);
                                    t += &format!(" ok {x}");
                                    types[1] = Some(n);
                                }
                                if let Some((x, l, n)) = part(&mut b, err, names::function_err(&v.name, name)) {
                                    f = f.err(l);
                                    t += &format!(" err {x}");
                                    types[2] = Some(n);
                                }
                                lines.push(line("fn", id, name, types));
                                w = w.function(f.finish());
                                text.push(t);
                            }
                            Item::Ev { pre, name, id, ty } => {
                                let id = id.parse().unwrap();
                                let mut e = doc!(EventIr::builder(id, name), doc(pre));
                                let mut t = format!("event {id} {name}");
                                let mut types = vec![None];
                                if let Some(ty) = ty {
                                    let (x, l, n) = b.inline(ty, &names::event_args(&v.name, name));
                                    e = e.event_type(l);
                                    types[0] = Some(n);
                                    t += &format!(" {x}");
                                }
                                lines.push(line("event", id, name, types));
                                w = w.event(e.finish());
                                text.push(t);
                            }
                        }
                    }
                    text.sort();
                    if let Some(f) = &v.fn_fallback {
                        w = w.function_fallback(doc!(FunctionFallbackIr::builder(&f.name), doc(&f.pre)).finish());
                        lines.push(line("fn fallback", 0, &f.name, vec![]));
                        text.push(format!("fn fallback {}", f.name));
                    }
                    if let Some(f) = &v.ev_fallback {
                        w = w.event_fallback(doc!(EventFallbackIr::builder(&f.name), doc(&f.pre)).finish());
                        lines.push(line("event fallback", 0, &f.name, vec![]));
                        text.push(format!("event fallback {}", f.name));
                    }
                    (w.finish().into(), format!("service {schema}::{} {} {} {text:?}", v.name, v.uuid.to_lowercase(), v.ver), lines)
                }
            };
            b.put(d.name(), x);
            if let Def::Service(v) = d {
                let i = b.custom[&(schema.clone(), v.name.clone())];
                let n = b.nodes[i].as_mut().unwrap();
                n.service = true;
                n.id = LexicalId::service(schema, &v.name);
            }
        }
    }
    for n in b.nodes.iter().flatten() {
        let mut seen = BTreeSet::new();
        if !n.lines.iter().all(|l| seen.insert((l.kind, l.id))) {
            return None;
        }
    }
    (b.nodes.len() <= MAX).then(|| Graph { nodes: b.nodes.into_iter().map(|n| n.expect("every type is defined")).collect() })
}
