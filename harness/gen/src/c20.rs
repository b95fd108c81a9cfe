use crate::c16::{program, texts};
use crate::clash;
use crate::edits;
use crate::gen::{self, Opts, Valid};
use crate::graph::{self, Graph, Line};
use crate::krate::{self, Conf, Intro, Wrap};
use crate::model::{self, Def, Schema, Ty};
use crate::near;
use crate::types::Types;
use aldrin_core::introspection::ir::IntrospectionIr;
use aldrin_core::introspection::{DynIntrospectable, Introspection, LexicalId};
use aldrin_core::{ProtocolVersion, SerializedValue, TypeId};
use std::collections::{BTreeSet, HashMap};
use vp::{ensure, fail, Ctx, Kind, Part, Property, Res, Src};

/// Type ids by what they are to depend on, and the other way around.
#[derive(Default)]
pub struct Seen {
    by_canon: HashMap<String, (TypeId, String)>,
    by_id: HashMap<TypeId, (String, String)>,
}

impl Seen {
    pub fn add(&mut self, canon: String, id: TypeId, what: &str, ctx: &mut Ctx) -> Res {
        if let Some((old, w)) = self.by_canon.get(&canon) {
            if *old != id {
                fail!("differs", "{w} has type id {old}, but {what} has {id}, and both are described by\n{canon}");
            }
            ctx.count("equal");
            return Ok(());
        }
        if let Some((old, w)) = self.by_id.get(&id) {
            fail!("same", "{w} and {what} both have type id {id}, but one is described by\n{old}\nand the other by\n{canon}");
        }
        ctx.count("distinct");
        self.by_canon.insert(canon.clone(), (id, what.into()));
        self.by_id.insert(id, (canon, what.into()));
        Ok(())
    }
}

fn label(g: &Graph, i: usize, v: &str) -> String {
    match &g.nodes[i].custom {
        Some((s, n)) => format!("{s}::{n} of {v}"),
        None => format!("{} of {v}", g.nodes[i].text),
    }
}

/// Whether a record says what the graph says about a type.
pub fn record(g: &Graph, i: usize, id: &dyn Fn(usize) -> TypeId, r: &Introspection, what: &str) -> Res {
    ensure!(r.type_id() == id(i), "record id", "the record of {what} has type id {}, its type {}", r.type_id(), id(i));
    let mut want: Vec<Line<TypeId>> = g.nodes[i]
        .lines
        .iter()
        .map(|l| Line { kind: l.kind, id: l.id, name: l.name.clone(), required: l.required, types: l.types.iter().map(|t| t.map(id)).collect() })
        .collect();
    want.sort();
    let got = graph::lines(r.layout());
    ensure!(want == got, "record", "the record of {what} says\n{got:#?}\nand its type is\n{want:#?}");
    let refs: BTreeSet<TypeId> = r.iter_references().collect();
    let want: BTreeSet<TypeId> = g.nodes[i].refs.iter().map(|n| id(*n)).collect();
    ensure!(refs == want, "record references", "the record of {what} refers to {refs:?} and its type to {want:?}");
    for l in &got {
        for t in l.types.iter().flatten() {
            ensure!(refs.contains(t), "unresolved", "the record of {what} uses {t}, which is not in its references");
        }
    }
    Ok(())
}

/// A record through serialization, at every version.
pub fn round_trip(s: &mut Src, r: &Introspection, what: &str) -> Res {
    let v = match s.bool() {
        true => SerializedValue::serialize(r),
        false => SerializedValue::serialize(r.clone()),
    };
    let mut v = v.map_err(|e| vp::Fail::new("serialize", format!("the record of {what}: {e}")))?;
    let to = *s.pick(&[ProtocolVersion::V1_20, ProtocolVersion::V1_17, ProtocolVersion::V1_19]);
    if let Err(e) = v.convert(None, to) {
        fail!("convert", "the record of {what} to {to:?}: {e}");
    }
    match v.deserialize::<Introspection>() {
        Ok(x) => ensure!(x == *r, "round trip", "the record of {what} changes through serialization:\n{r:?}\n{x:?}"),
        Err(e) => fail!("deserialize", "the record of {what}: {e}\n{r:?}"),
    }
    Ok(())
}

fn set_of(s: &mut Src, services: bool, odd: bool) -> Vec<(String, Schema)> {
    let v = Valid {
        o: Opts { text: *s.pick(&[0, 3]), wild_text: s.bool(), attrs: false, wild: false },
        schemas: *s.pick(&[1, 2, 3]),
        defs: *s.pick(&[4, 3, 7]),
        depth: *s.pick(&[2, 1, 3]),
        odd_names: odd,
        services,
        channels: true,
        array_max: 40,
    };
    let mut set = gen::valid_schemas(s, &v);
    if s.chance(1, 4) {
        edits::widen(s, &mut set);
    }
    set
}

fn text(s: &mut Src) -> Vec<String> {
    (0..s.small(3)).map(|_| gen::line(s, true)).collect()
}

fn show(set: &[(String, Schema)]) -> String {
    let mut s = Src::replay(vec![]);
    set.iter().map(|(n, x)| format!("== {n}\n{}", crate::print::print(&mut s, x, crate::print::Layout::Plain))).collect()
}

/// Layouts built by hand.
fn ir_case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let services = s.bool();
    let odd = s.bool();
    let mut base = set_of(s, services, odd);
    // types that could not be in a schema, such as ones without end
    for _ in 0..s.small(6) {
        let mut next = base.clone();
        edits::semantic(s, &mut next);
        if graph::build(&next).is_some() {
            base = next;
        }
    }
    if s.chance(1, 3) {
        edits::look_alikes(s, &mut base);
    }
    if graph::build(&base).is_none() {
        ctx.count("skipped");
        return Ok(());
    }
    let mut variants = vec![("", "the first one".to_string(), base.clone())];
    let mut same = base.clone();
    edits::cosmetic(s, &mut same, &text);
    variants.push(("", "another order".into(), same.clone()));
    for _ in 0..s.range(2, 4) {
        let mut next = if s.bool() { base.clone() } else { same.clone() };
        let (kind, how) = edits::semantic(s, &mut next);
        if s.chance(1, 3) {
            edits::cosmetic(s, &mut next, &text);
        }
        variants.push((kind, format!("{kind}: {how}"), next));
    }
    ctx.describe(|| variants.iter().map(|(_, n, v)| format!("#### {n}\n{}", show(v))).collect());
    let mut seen = Seen::default();
    for (kind, name, set) in &variants {
        let Some(g) = graph::build(set) else {
            ctx.count("skipped: variant");
            continue;
        };
        let all: Vec<_> = (0..g.nodes.len()).collect();
        let mut lexical: HashMap<LexicalId, usize> = HashMap::new();
        for i in &all {
            if let Some(j) = lexical.insert(g.nodes[*i].id, *i) {
                fail!("lexical id", "{} and {} are both referred to by {}", label(&g, j, name), label(&g, *i, name), g.nodes[*i].id);
            }
        }
        let before = seen.by_canon.len();
        g.enter(None);
        let ids: Vec<_> = all.iter().map(|i| TypeId::compute_from_dyn(g.ty(*i))).collect();
        g.enter(Some(s));
        for i in all {
            let what = label(&g, i, name);
            let id = ids[i];
            if g.nodes[i].custom.is_some() || s.chance(1, 3) {
                let again = TypeId::compute_from_dyn(g.ty(i));
                ensure!(again == id, "order of references", "{what}: type id {id}, and {again} with its references in another order");
                let r = Introspection::from_dyn(g.ty(i));
                record(&g, i, &|n| ids[n], &r, &what)?;
                round_trip(s, &r, &what)?;
                let ir = IntrospectionIr::from_dyn(g.ty(i));
                ensure!(ir.type_id() == id && Introspection::from(ir) == r, "ir", "{what}: the record made of the description differs");
                ctx.count("records");
            }
            seen.add(g.canon(i), id, &what, ctx)?;
        }
        if !kind.is_empty() && seen.by_canon.len() > before {
            ctx.nontrivial = true;
            ctx.count(kind);
        }
    }
    Ok(())
}

/// What a program says about the types of one of its modules.
struct Ask {
    wrap: String,
    /// Entry, node.
    types: Vec<(usize, usize)>,
    graph: Graph,
}

/// Generated code.
fn code_case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let services = s.bool();
    let near = match s.chance(1, 3) {
        true => near::sets(s, services, 6),
        false => vec![],
    };
    let mut base = match near.first() {
        Some(x) => x.clone(),
        None => set_of(s, services, true),
    };
    if !clash::tidy(&mut base) || graph::build(&base).is_none() {
        ctx.count("skipped");
        return Ok(());
    }
    let mut variants = vec![("a".to_string(), "the first one".to_string(), base.clone())];
    let mut same = base.clone();
    edits::cosmetic(s, &mut same, &text);
    variants.push(("b".into(), "another order".into(), same.clone()));
    for (n, x) in ["f", "g", "h", "i", "j", "k"].iter().zip(near.iter().skip(1)) {
        if graph::build(x).is_some() {
            variants.push((n.to_string(), format!("near {n}"), x.clone()));
        }
    }
    for n in if near.is_empty() { &["c", "d", "e"][..] } else { &[] } {
        let mut next = if s.bool() { base.clone() } else { same.clone() };
        let (kind, how) = edits::semantic(s, &mut next);
        edits::tidy_refs(&mut next);
        if !clash::tidy(&mut next) || graph::build(&next).is_none() {
            continue;
        }
        variants.push((n.to_string(), format!("{kind}: {how}"), next));
    }
    let (client, server) = *s.pick(&[(true, true), (true, false), (false, true)]);
    let conf = Conf { client, server, intro: *s.pick(&[Intro::On, Intro::IfOn]), via_macro: false, alt_crate: s.chance(1, 4), edition: "2021" };
    let (mut wraps, mut asks, mut exprs) = (vec![], vec![], vec![]);
    for (w, what, set) in &variants {
        let src = texts(s, set);
        if krate::validate(&src).is_err() {
            ctx.count("variant not valid");
            continue;
        }
        if what != "another order" && what != "the first one" {
            ctx.nontrivial = true;
        }
        let graph = graph::build(set).unwrap();
        let t = Types::new(set);
        if (0..t.entries.len()).any(|i| t.bytes_of(i) > 10_000_000) {
            ctx.count("skipped: large");
            continue;
        }
        let conf = Conf { via_macro: s.bool(), ..conf };
        let mut types = vec![];
        let mut add = |p: String, n: usize, exprs: &mut Vec<String>| {
            types.push((exprs.len(), n));
            exprs.push(format!("rt::Entry {{ value: None, id: rt::id::<{p}>(), record: rt::record::<{p}>() }}"));
        };
        for e in &t.entries {
            let n = graph.find(&e.schema, &e.name).expect("node");
            add(format!("{w}::r#{}::r#{}", e.schema, e.name), n, &mut exprs);
        }
        for (m, x) in set {
            for d in &x.defs {
                if let Def::Service(v) = d {
                    let n = graph.find(m, &v.name).expect("node");
                    for c in [true, false] {
                        if if c { conf.client } else { conf.server } {
                            types.push((exprs.len(), n));
                            exprs.push(krate::service_entry(w, m, &v.name, c));
                        }
                    }
                }
            }
        }
        asks.push(Ask { wrap: format!("{what}{}", if conf.via_macro { ", by the macro" } else { "" }), types, graph });
        wraps.push(Wrap { name: w.clone(), set: src, conf });
    }
    if wraps.is_empty() {
        ctx.nontrivial = false;
        return Ok(());
    }
    let p = program(&wraps, &exprs)?;
    ctx.describe(|| p.listing());
    let work = ctx.work.clone();
    krate::with(&p, &work, |r| {
        let mut seen = Seen::default();
        for a in &asks {
            a.graph.enter(None);
            let mut memo: HashMap<usize, TypeId> = HashMap::new();
            let mut ir = |n: usize| *memo.entry(n).or_insert_with(|| TypeId::compute_from_dyn(a.graph.ty(n)));
            for (entry, node) in &a.types {
                let what = label(&a.graph, *node, &a.wrap);
                let id = match r.call(*entry, 100, &[]) {
                    Ok(b) => TypeId(uuid::Uuid::from_slice(&b).unwrap()),
                    Err(e) => fail!("type id", "{what}: {e}\n{}", p.listing()),
                };
                if id != ir(*node) {
                    fail!("by hand", "{what}: type id {id} from generated code, and {} for the same description by hand\n{}\n{}", ir(*node), a.graph.canon(*node), p.listing());
                }
                let rec = match r.call(*entry, 101, &[]) {
                    Ok(b) => match genrt::rt::raw(&b).deserialize::<Introspection>() {
                        Ok(r) => r,
                        Err(e) => fail!("deserialize", "the record of {what}: {e}"),
                    },
                    Err(e) => fail!("record", "{what}: {e}\n{}", p.listing()),
                };
                for n in &a.graph.nodes[*node].refs {
                    ir(*n);
                }
                ir(*node);
                let ids = |n: usize| TypeId::compute_from_dyn(a.graph.ty(n));
                record(&a.graph, *node, &ids, &rec, &what)?;
                round_trip(s, &rec, &what)?;
                ctx.count("records");
                seen.add(a.graph.canon(*node), id, &what, ctx)?;
            }
        }
        Ok(())
    })
    .unwrap_or_else(|r| {
        // not what this is about
        if std::env::var_os("VP_COMPILE").is_some() {
            return Err(crate::c16::compile_fail(&p, r));
        }
        ctx.nontrivial = false;
        ctx.count("does not compile");
        Ok(())
    })
}

fn one(k: &'static str, t: Ty) -> Ty {
    Ty::One(k, Box::new(t))
}

/// Types of Rust, and what they are in a schema.
fn rust_types() -> Vec<(DynIntrospectable, &'static str, Ty)> {
    use aldrin::core as c;
    use std::collections::*;
    let mut l = vec![];
    macro_rules! add {
        ($($t:ty => $e:expr),* $(,)?) => { $( l.push((DynIntrospectable::new::<$t>(), stringify!($t), $e)); )* };
    }
    let p = |n: &'static str| Ty::Prim(n);
    let m = |a: Ty, b: Ty| Ty::Map(Box::new(a), Box::new(b));
    let r = |a: Ty, b: Ty| Ty::Result(Box::new(a), Box::new(b));
    let a = |t: Ty, n: u32| Ty::Array(Box::new(t), model::Len::Lit(n.to_string()));
    add! {
        bool => p("bool"), u8 => p("u8"), i8 => p("i8"), u16 => p("u16"), i16 => p("i16"), u32 => p("u32"), i32 => p("i32"),
        u64 => p("u64"), i64 => p("i64"), f32 => p("f32"), f64 => p("f64"), String => p("string"), str => p("string"),
        uuid::Uuid => p("uuid"), c::ObjectId => p("object_id"), c::ServiceId => p("service_id"), c::Value => p("value"),
        c::SerializedValue => p("value"), c::SerializedValueSlice => p("value"), c::Bytes => p("bytes"), c::ByteSlice => p("bytes"),
        bytes::Bytes => p("bytes"), bytes::BytesMut => p("bytes"), () => p("unit"), aldrin::LifetimeId => p("lifetime"),
        c::ObjectUuid => p("uuid"), c::ServiceUuid => p("uuid"), c::TypeId => p("uuid"),
        c::ObjectCookie => p("uuid"), c::ServiceCookie => p("uuid"), c::ChannelCookie => p("uuid"), c::BusListenerCookie => p("uuid"),
        Option<u16> => one("option", p("u16")), Box<u16> => one("box", p("u16")), &'static str => one("box", p("string")),
        &'static mut u16 => one("box", p("u16")), Box<str> => one("box", p("string")), Box<[u16]> => one("box", one("vec", p("u16"))),
        Vec<u16> => one("vec", p("u16")), VecDeque<u16> => one("vec", p("u16")), LinkedList<u16> => one("vec", p("u16")),
        [u16] => one("vec", p("u16")), [u16; 0] => a(p("u16"), 0), [u16; 1] => a(p("u16"), 1), [u16; 256] => a(p("u16"), 256),
        [u16; 65536] => a(p("u16"), 65536), [u8; 16] => a(p("u8"), 16), [[u8; 2]; 3] => a(a(p("u8"), 2), 3), [[u8; 3]; 2] => a(a(p("u8"), 3), 2),
        HashMap<String, u8> => m(p("string"), p("u8")), BTreeMap<String, u8> => m(p("string"), p("u8")), HashMap<u8, String> => m(p("u8"), p("string")),
        HashMap<u8, u8> => m(p("u8"), p("u8")), HashSet<u8> => one("set", p("u8")), BTreeSet<u8> => one("set", p("u8")),
        Result<u8, String> => r(p("u8"), p("string")), Result<String, u8> => r(p("string"), p("u8")),
        aldrin::UnboundSender<u8> => one("sender", p("u8")), aldrin::UnboundReceiver<u8> => one("receiver", p("u8")),
        Option<Option<u16>> => one("option", one("option", p("u16"))), Option<Vec<u16>> => one("option", one("vec", p("u16"))),
        Vec<Option<u16>> => one("vec", one("option", p("u16"))), Vec<Vec<u16>> => one("vec", one("vec", p("u16"))),
        Vec<VecDeque<u16>> => one("vec", one("vec", p("u16"))), Box<Box<u16>> => one("box", one("box", p("u16"))),
        Option<Box<HashMap<i64, Result<(), Vec<u64>>>>> => one("option", one("box", m(p("i64"), r(p("unit"), one("vec", p("u64")))))),
    }
    l
}

/// Every pair of Rust's types: the same id where they are the same on the wire.
fn rust_case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let all = rust_types();
    let (rust, name, ty) = &all[s.u64() as usize % all.len()];
    let def = |n: &str, ty: &Ty| Def::Newtype { pre: Default::default(), name: n.into(), ty: ty.clone() };
    let set = vec![("s".to_string(), Schema { defs: vec![def("A", ty)], ..Default::default() })];
    let g = graph::build(&set).unwrap();
    g.enter(None);
    let a = g.nodes[g.find("s", "A").unwrap()].refs[0];
    let id = TypeId::compute_from_dyn(*rust);
    let want = TypeId::compute_from_dyn(g.ty(a));
    ctx.nontrivial = true;
    ctx.describe(|| name.to_string());
    ensure!(id == want, "rust type", "{name} has type id {id}, and {ty:?} by hand {want}");
    ensure!(rust.lexical_id() == g.nodes[a].id, "rust lexical id", "{name} has lexical id {}, and {ty:?} by hand {}", rust.lexical_id(), g.nodes[a].id);
    for (other, oname, oty) in &all {
        let oid = TypeId::compute_from_dyn(*other);
        ensure!((id == oid) == (ty == oty), "rust types", "{name} has type id {id}, {oname} has {oid}");
        let same = rust.lexical_id() == other.lexical_id();
        ensure!(same == (ty == oty), "rust lexical ids", "{name} has lexical id {}, {oname} has {}", rust.lexical_id(), other.lexical_id());
    }
    let ids = |n: usize| TypeId::compute_from_dyn(g.ty(n));
    let r = Introspection::from_dyn(*rust);
    record(&g, a, &ids, &r, name)?;
    round_trip(s, &r, name)
}

pub fn property() -> Property {
    Property {
        id: "C20",
        level: "exploration",
        rule: "a generated set of schemas and at least one edited one, whose types were all compared",
        assumptions: &[
            "no two types of a set have the same name; their types would have the same lexical id",
            "vec<u8> and bytes are the same type in generated code",
            "whether a service's uuid and version matter is not decided: they are the same in all variants",
        ],
        parts: vec![
            Part::new("ir", Kind::Random(30_000, 1_500_000), ir_case).secs(60, 1800),
            Part::new("near", Kind::Random(8_000, 400_000), near::case).secs(60, 1800),
            Part::new("rust", Kind::Enumerate(|t| rust_types().len() as u64 * if t { 16 } else { 1 }), rust_case).secs(60, 600),
            Part::new("code", Kind::Random(200, 10_000), code_case).secs(90, 2400).hang(200).shrink(150),
        ],
    }
}
