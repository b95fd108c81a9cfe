//! Layouts over a handful of names, ids and types, each with everything that differs from it in
//! one thing. With so few of them, names, ids and types coincide all the time.
use crate::c20::{record, round_trip, Seen};
use crate::graph::{self, shuffle};
use crate::model::{Def, Fallback, Field, FnPart, Inline, Item, Len, Pre, Schema, Svc, Ty, Variant};
use aldrin_core::introspection::Introspection;
use aldrin_core::TypeId;
use vp::{Ctx, Res, Src};

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Struct,
    Enum,
    Newtype,
    Service,
}

#[derive(Clone, PartialEq, Debug)]
struct M {
    id: u32,
    name: &'static str,
    required: bool,
    /// A function has three.
    tys: [Option<Ty>; 3],
}

/// A type.
#[derive(Clone, PartialEq, Debug)]
struct W {
    kind: K,
    members: Vec<M>,
    events: Vec<M>,
    fallback: Option<&'static str>,
    ev_fallback: Option<&'static str>,
}

struct Pool {
    ids: Vec<u32>,
    names: Vec<&'static str>,
    tys: Vec<Ty>,
}

const IDS: [u32; 14] = [0, 1, 2, 3, 127, 128, 251, 252, 255, 256, 65535, 65536, 0x7fff_ffff, 0xffff_ffff];
/// Those that cannot collide with anything generated code has, or with each other in another case.
const PLAIN: [&str; 7] = ["aa", "bb", "ab", "ba", "aaa", "a1", "b1"];
const NAMES: [&str; 12] = ["a", "b", "A", "aa", "ab", "a1", "a_b", "c", "fallback", "value", "id", "ok"];

fn p(n: &'static str) -> Ty {
    Ty::Prim(n)
}

fn tys() -> Vec<Ty> {
    let one = |k, t: Ty| Ty::One(k, Box::new(t));
    let r = |n: &str| Ty::Ref(None, n.to_owned());
    let m = |a, b| Ty::Map(Box::new(a), Box::new(b));
    let res = |a, b| Ty::Result(Box::new(a), Box::new(b));
    vec![
        p("u8"),
        p("string"),
        p("unit"),
        p("value"),
        p("uuid"),
        r("A"),
        r("B"),
        one("option", p("u8")),
        one("option", r("A")),
        one("box", r("A")),
        one("vec", r("A")),
        one("vec", p("string")),
        one("set", p("u16")),
        one("sender", p("u16")),
        one("receiver", p("u16")),
        m(p("u16"), p("u32")),
        m(p("u32"), p("u16")),
        m(p("u16"), p("u16")),
        res(p("u16"), p("u32")),
        res(p("u32"), p("u16")),
        res(r("A"), r("B")),
        res(r("B"), r("A")),
        Ty::Array(Box::new(p("u16")), Len::Lit("3".into())),
        Ty::Array(Box::new(p("u16")), Len::Lit("4".into())),
        Ty::Array(Box::new(r("A")), Len::Lit("3".into())),
    ]
}

fn some<T: Clone>(s: &mut Src, v: &[T], n: usize) -> Vec<T> {
    let mut v = v.to_vec();
    shuffle(s, &mut v);
    v.truncate(n);
    v
}

impl Pool {
    fn new(s: &mut Src, names: &[&'static str]) -> Self {
        Self { ids: some(s, &IDS, 4), names: some(s, names, 5), tys: some(s, &tys(), 3) }
    }

    fn ty(&self, s: &mut Src, kind: K) -> Option<Ty> {
        let none = match kind {
            K::Struct | K::Newtype => 0,
            K::Enum | K::Service => 1,
        };
        (!s.chance(none, 3)).then(|| s.pick(&self.tys).clone())
    }
}

impl W {
    fn new(s: &mut Src, pool: &Pool, kind: K) -> Self {
        let mut w = W { kind, members: vec![], events: vec![], fallback: None, ev_fallback: None };
        let mut names = pool.names.clone();
        shuffle(s, &mut names);
        if kind != K::Newtype {
            if s.chance(1, 3) {
                w.fallback = names.pop();
            }
            if kind == K::Service && s.chance(1, 3) {
                w.ev_fallback = names.pop();
            }
        }
        let n = if kind == K::Newtype { 1 } else { s.range(0, 2).max((kind == K::Enum) as usize) };
        let events = if kind == K::Service { s.range(0, 2) } else { 0 };
        for i in 0..n + events {
            let list = if i < n { &mut w.members } else { &mut w.events };
            let free: Vec<u32> = pool.ids.iter().copied().filter(|x| list.iter().all(|m| m.id != *x)).collect();
            let Some(name) = names.pop() else { break };
            let mut tys = [pool.ty(s, kind), None, None];
            if i < n && kind == K::Service {
                tys[1] = pool.ty(s, kind);
                tys[2] = pool.ty(s, kind);
            }
            list.push(M { id: *s.pick(&free), name, required: kind == K::Struct && s.bool(), tys });
        }
        w
    }

    /// Whether a schema could say that.
    fn valid(&self) -> bool {
        let mut names: Vec<_> = self.members.iter().chain(&self.events).map(|m| m.name).collect();
        names.extend(self.fallback);
        names.extend(self.ev_fallback);
        let all = names.len();
        names.sort();
        names.dedup();
        let ids = |l: &[M]| (0..l.len()).all(|i| l[..i].iter().all(|m| m.id != l[i].id));
        let shape = match self.kind {
            K::Struct => self.members.iter().all(|m| m.tys[0].is_some()),
            K::Enum => !self.members.is_empty() || self.fallback.is_some(),
            K::Newtype => self.members.len() == 1 && self.members[0].tys[0].is_some() && self.fallback.is_none(),
            K::Service => true,
        };
        shape && names.len() == all && ids(&self.members) && ids(&self.events)
    }

    /// Everything that differs from it in one thing, or in two that are swapped.
    fn near(&self, pool: &Pool) -> Vec<W> {
        let mut v = vec![];
        let slots = |kind: K, events: bool| if kind == K::Service && !events { 3 } else { 1 };
        for ev in [false, true] {
            fn get(w: &mut W, ev: bool) -> &mut Vec<M> {
                if ev {
                    &mut w.events
                } else {
                    &mut w.members
                }
            }
            if ev && self.kind != K::Service {
                break;
            }
            let n = if ev { self.events.len() } else { self.members.len() };
            let mut add = |f: &dyn Fn(&mut Vec<M>)| {
                let mut w = self.clone();
                f(get(&mut w, ev));
                v.push(w);
            };
            for i in 0..n {
                for id in &pool.ids {
                    add(&|l| l[i].id = *id);
                }
                for name in &pool.names {
                    add(&|l| l[i].name = name);
                }
                if self.kind == K::Struct {
                    add(&|l| l[i].required ^= true);
                }
                for k in 0..slots(self.kind, ev) {
                    for t in &pool.tys {
                        add(&|l| l[i].tys[k] = Some(t.clone()));
                    }
                    add(&|l| l[i].tys[k] = None);
                    add(&|l| l[i].tys.swap(k, 0));
                    add(&|l| l[i].tys.swap(k, (k + 1) % slots(self.kind, ev)));
                    // twice the same
                    add(&|l| l[i].tys[k] = l[i].tys[0].clone());
                    add(&|l| l[i].tys[k] = l[i].tys[(k + 1) % slots(self.kind, ev)].clone());
                }
                add(&|l| {
                    l.remove(i);
                });
                for j in 0..i {
                    add(&|l| {
                        let (a, b) = l.split_at_mut(i);
                        std::mem::swap(&mut a[j].name, &mut b[0].name);
                    });
                    add(&|l| {
                        let (a, b) = l.split_at_mut(i);
                        std::mem::swap(&mut a[j].tys, &mut b[0].tys);
                    });
                    add(&|l| {
                        let (a, b) = l.split_at_mut(i);
                        std::mem::swap(&mut a[j].required, &mut b[0].required);
                    });
                }
            }
            for id in &pool.ids {
                for name in &pool.names {
                    add(&|l| {
                        let first = l.first().map_or(pool.tys[0].clone(), |m| m.tys[0].clone().unwrap_or(p("u8")));
                        l.push(M { id: *id, name, required: false, tys: [Some(first), None, None] });
                    });
                }
            }
        }
        let fb: Vec<_> = pool.names.iter().map(|n| Some(*n)).chain([None]).collect();
        for f in &fb {
            v.push(W { fallback: *f, ..self.clone() });
            if self.kind == K::Service {
                v.push(W { ev_fallback: *f, ..self.clone() });
            }
        }
        if self.kind == K::Service {
            v.push(W { fallback: self.ev_fallback, ev_fallback: self.fallback, ..self.clone() });
            v.push(W { members: self.events.clone(), events: self.members.clone(), ..self.clone() });
        } else {
            for kind in [K::Struct, K::Enum, K::Newtype] {
                v.push(W { kind, ..self.clone() });
            }
        }
        if self.kind != K::Struct {
            v.iter_mut().flat_map(|w| &mut w.members).for_each(|m| m.required = false);
        }
        v.retain(|w| w.valid());
        v
    }

    /// Its definition. If `pin`, it refers to all of the pool's types anyway.
    fn def(&self, s: &mut Src, name: &str, pool: &Pool, pin: bool) -> Def {
        let pre = Pre::default;
        let fb = |f: Option<&str>| f.map(|n| Fallback { pre: pre(), name: n.into() });
        let part = |t: &Option<Ty>| t.clone().map(|t| FnPart { comment: vec![], ty: Inline::Ty(t) });
        let mut pins: Vec<(String, String, Ty)> = vec![];
        if pin {
            pins.extend(pool.tys.iter().enumerate().map(|(i, t)| (format!("pin{i}"), (1000 + i).to_string(), t.clone())));
        }
        match self.kind {
            K::Struct => {
                let mut fields: Vec<_> =
                    self.members.iter().map(|m| Field { pre: pre(), required: m.required, name: m.name.into(), id: m.id.to_string(), ty: m.tys[0].clone().unwrap() }).collect();
                fields.extend(pins.into_iter().map(|(name, id, ty)| Field { pre: pre(), required: false, name, id, ty }));
                shuffle(s, &mut fields);
                Def::Struct { pre: pre(), name: name.into(), fields, fallback: fb(self.fallback) }
            }
            K::Enum => {
                let mut vars: Vec<_> = self.members.iter().map(|m| Variant { pre: pre(), name: m.name.into(), id: m.id.to_string(), ty: m.tys[0].clone() }).collect();
                vars.extend(pins.into_iter().map(|(name, id, ty)| Variant { pre: pre(), name, id, ty: Some(ty) }));
                shuffle(s, &mut vars);
                Def::Enum { pre: pre(), name: name.into(), vars, fallback: fb(self.fallback) }
            }
            K::Newtype => Def::Newtype { pre: pre(), name: name.into(), ty: self.members[0].tys[0].clone().unwrap() },
            K::Service => {
                let mut items: Vec<_> = self
                    .members
                    .iter()
                    .map(|m| Item::Fn { pre: pre(), name: m.name.into(), id: m.id.to_string(), args: part(&m.tys[0]), ok: part(&m.tys[1]), err: part(&m.tys[2]) })
                    .collect();
                items.extend(self.events.iter().map(|m| Item::Ev { pre: pre(), name: m.name.into(), id: m.id.to_string(), ty: m.tys[0].clone().map(Inline::Ty) }));
                items.extend(pins.into_iter().map(|(name, id, ty)| Item::Ev { pre: pre(), name, id, ty: Some(Inline::Ty(ty)) }));
                shuffle(s, &mut items);
                Def::Service(Svc {
                    pre: pre(),
                    name: name.into(),
                    uuid_comment: vec![],
                    uuid: "5ae4b7c2-62a9-4d63-9d5a-47ba1a4d6dc9".into(),
                    ver_comment: vec![],
                    ver: "1".into(),
                    items,
                    fn_fallback: fb(self.fallback),
                    ev_fallback: fb(self.ev_fallback),
                })
            }
        }
    }
}

pub fn case(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pool = Pool::new(s, &NAMES);
    let kind = *s.pick(&[K::Struct, K::Enum, K::Service, K::Newtype, K::Service]);
    let root = W::new(s, &pool, kind);
    let ka = *s.pick(&[K::Struct, K::Enum, K::Newtype]);
    // types without end have a description, too
    let a = W::new(s, &pool, ka);
    let kb = *s.pick(&[K::Struct, K::Enum, K::Newtype]);
    let b = W::new(s, &pool, kb);
    if !root.valid() || !a.valid() || !b.valid() {
        ctx.count("skipped");
        return Ok(());
    }
    let pin = s.chance(3, 4);
    let mut all = vec![(root.clone(), a.clone())];
    all.extend(root.near(&pool).into_iter().map(|w| (w, a.clone())));
    all.extend(a.near(&pool).into_iter().map(|w| (root.clone(), w)));
    ctx.describe(|| format!("{root:?} with A = {a:?} and B = {b:?}, and {} others; pinned: {pin}", all.len()));
    let mut seen = Seen::default();
    for (i, (w, a)) in all.iter().enumerate() {
        let set = set(s, w, a, &b, &pool, pin);
        let Some(g) = graph::build(&set) else {
            vp::fail!("machinery", "no graph of {w:?}");
        };
        let n = g.find("s", "Root").unwrap();
        g.enter(None);
        let ids: Vec<_> = match i {
            0 => (0..g.nodes.len()).map(|i| TypeId::compute_from_dyn(g.ty(i))).collect(),
            _ => vec![],
        };
        let id = TypeId::compute_from_dyn(g.ty(n));
        let what = format!("{w:?} with A = {a:?}");
        if i == 0 {
            let r = Introspection::from_dyn(g.ty(n));
            record(&g, n, &|n| ids[n], &r, &what)?;
            round_trip(s, &r, &what)?;
        }
        seen.add(g.canon(n), id, &what, ctx)?;
    }
    ctx.nontrivial = all.len() > 10;
    Ok(())
}

fn set(s: &mut Src, root: &W, a: &W, b: &W, pool: &Pool, pin: bool) -> Vec<(String, Schema)> {
    let defs = vec![root.def(s, "Root", pool, pin), a.def(s, "A", pool, false), b.def(s, "B", pool, false)];
    vec![("s".to_string(), Schema { defs, ..Default::default() })]
}

/// A schema to generate code for, and `n` that are near.
pub fn sets(s: &mut Src, services: bool, n: usize) -> Vec<Vec<(String, Schema)>> {
    let pool = Pool::new(s, &PLAIN);
    let kinds: &[K] = if services { &[K::Service] } else { &[K::Struct, K::Enum] };
    let kind = *s.pick(kinds);
    let (root, a, b) = (W::new(s, &pool, kind), W::new(s, &pool, K::Struct), W::new(s, &pool, K::Enum));
    let mut all = vec![];
    if root.valid() && a.valid() && b.valid() {
        let pin = s.chance(3, 4);
        all.push(set(s, &root, &a, &b, &pool, pin));
        let (near, near_a) = (root.near(&pool), a.near(&pool));
        for _ in 0..n {
            let (root, a) = match s.chance(1, 5) && !near_a.is_empty() {
                true => (root.clone(), s.pick(&near_a).clone()),
                false => (s.pick(&near).clone(), a.clone()),
            };
            all.push(set(s, &root, &a, &b, &pool, pin));
        }
    }
    all
}
