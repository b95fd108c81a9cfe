//! Changes to sets of schemas: ones that matter to type ids, and ones that do not.
use crate::graph::shuffle;
use crate::model::{self, Def, Fallback, Field, FnPart, Inline, Item, Len, Pre, Schema, Ty, Variant};
use vp::Src;

/// A place where something can be changed.
enum Site<'a> {
    Name(&'a mut String),
    Id(&'a mut String),
    Required(&'a mut bool),
    Ty(&'a mut Ty),
    OptTy(&'a mut Option<Ty>),
    Part(&'a mut Option<FnPart>),
    Parts(&'a mut Option<FnPart>, &'a mut Option<FnPart>),
    Ev(&'a mut Option<Inline>),
    Fallback(&'a mut Option<Fallback>),
    Fields(&'a mut Vec<Field>),
    Vars(&'a mut Vec<Variant>),
    Items(&'a mut Vec<Item>),
    Def(&'a mut Def),
    Const(&'a mut String),
}

type F<'f> = dyn FnMut(&'static str, Site) + 'f;

fn ty(t: &mut Ty, f: &mut F) {
    f("a type", Site::Ty(t));
    match t {
        Ty::Prim(_) | Ty::Ref(..) => {}
        Ty::One(_, t) => ty(t, f),
        Ty::Array(t, _) => ty(t, f),
        Ty::Map(_, v) => ty(v, f),
        Ty::Result(a, b) => {
            ty(a, f);
            ty(b, f);
        }
    }
}

fn fields(v: &mut Vec<Field>, fb: &mut Option<Fallback>, f: &mut F) {
    f("fields", Site::Fields(v));
    for x in v {
        f("a field's name", Site::Name(&mut x.name));
        f("a field's id", Site::Id(&mut x.id));
        f("required", Site::Required(&mut x.required));
        ty(&mut x.ty, f);
    }
    fallback(fb, f);
}

fn fallback(fb: &mut Option<Fallback>, f: &mut F) {
    f("fallback", Site::Fallback(fb));
    if let Some(x) = fb {
        f("a fallback's name", Site::Name(&mut x.name));
    }
}

fn vars(v: &mut Vec<Variant>, fb: &mut Option<Fallback>, f: &mut F) {
    f("variants", Site::Vars(v));
    for x in v {
        f("a variant's name", Site::Name(&mut x.name));
        f("a variant's id", Site::Id(&mut x.id));
        f("a variant's type", Site::OptTy(&mut x.ty));
        if let Some(t) = &mut x.ty {
            ty(t, f);
        }
    }
    fallback(fb, f);
}

fn inline(i: &mut Inline, f: &mut F) {
    match i {
        Inline::Ty(t) => ty(t, f),
        Inline::Struct(_, v, fb) => fields(v, fb, f),
        Inline::Enum(_, v, fb) => vars(v, fb, f),
    }
}

fn sites(set: &mut [(String, Schema)], f: &mut F) {
    for (_, s) in set {
        for d in &mut s.defs {
            f("definition", Site::Def(d));
            match d {
                Def::Struct { fields: v, fallback: fb, .. } => fields(v, fb, f),
                Def::Enum { vars: v, fallback: fb, .. } => vars(v, fb, f),
                Def::Newtype { ty: t, .. } => ty(t, f),
                Def::Const { val, kind, .. } => {
                    if model::INTS.contains(kind) {
                        f("a constant", Site::Const(val));
                    }
                }
                Def::Service(v) => {
                    f("items", Site::Items(&mut v.items));
                    for i in &mut v.items {
                        match i {
                            Item::Fn { name, id, args, ok, err, .. } => {
                                f("a function's name", Site::Name(name));
                                f("a function's id", Site::Id(id));
                                f("arguments", Site::Part(args));
                                f("a result", Site::Part(ok));
                                f("an error", Site::Part(err));
                                f("arguments and result", Site::Parts(args, ok));
                                f("result and error", Site::Parts(ok, err));
                                for p in [args, ok, err].into_iter().flatten() {
                                    inline(&mut p.ty, f);
                                }
                            }
                            Item::Ev { name, id, ty: t, .. } => {
                                f("an event's name", Site::Name(name));
                                f("an event's id", Site::Id(id));
                                f("an event's type", Site::Ev(t));
                                if let Some(t) = t {
                                    inline(t, f);
                                }
                            }
                        }
                    }
                    fallback(&mut v.fn_fallback, f);
                    fallback(&mut v.ev_fallback, f);
                }
            }
        }
    }
}

fn rename_refs(set: &mut [(String, Schema)], f: &dyn Fn(usize, &mut Option<String>, &mut String)) {
    fn go(t: &mut Ty, g: &mut dyn FnMut(&mut Option<String>, &mut String)) {
        match t {
            Ty::Prim(_) => {}
            Ty::Ref(m, n) => g(m, n),
            Ty::One(_, t) => go(t, g),
            Ty::Array(t, l) => {
                go(t, g);
                if let Len::Ref(m, n) = l {
                    g(m, n);
                }
            }
            Ty::Map(a, b) | Ty::Result(a, b) => {
                go(a, g);
                go(b, g);
            }
        }
    }
    for i in 0..set.len() {
        let mut g = |m: &mut Option<String>, n: &mut String| f(i, m, n);
        // sites visits the parts of types too, so only handle what is at the top
        let mut tops: Vec<*const Ty> = vec![];
        sites(&mut set[i..i + 1], &mut |_, s| {
            if let Site::Ty(t) = s {
                if !tops.contains(&(t as *const Ty)) {
                    go(t, &mut g);
                    mark(t, &mut tops);
                }
            }
        });
    }
}

fn mark(t: &Ty, l: &mut Vec<*const Ty>) {
    l.push(t);
    match t {
        Ty::Prim(_) | Ty::Ref(..) => {}
        Ty::One(_, t) | Ty::Array(t, _) => mark(t, l),
        Ty::Map(a, b) | Ty::Result(a, b) => {
            mark(a, l);
            mark(b, l);
        }
    }
}

/// All names that types have.
fn type_names(set: &[(String, Schema)]) -> Vec<(String, String)> {
    let mut l = vec![];
    for (m, s) in set {
        for d in &s.defs {
            if matches!(d, Def::Struct { .. } | Def::Enum { .. } | Def::Newtype { .. }) {
                l.push((m.clone(), d.name().to_owned()));
            }
        }
    }
    l
}

fn some_type(s: &mut Src, all: &[(String, String)]) -> Ty {
    let t = if !all.is_empty() && s.bool() {
        let (m, n) = s.pick(all).clone();
        Ty::Ref(Some(m), n)
    } else {
        Ty::Prim(s.pick(&model::PRIMS))
    };
    match s.below(6) {
        0 => Ty::One(s.pick(&["option", "box", "vec", "sender", "receiver"]), Box::new(t)),
        1 => Ty::Map(Box::new(Ty::Prim(s.pick(&model::KEYS))), Box::new(t)),
        2 => Ty::Result(Box::new(t), Box::new(Ty::Prim(s.pick(&model::PRIMS)))),
        3 => Ty::Array(Box::new(t), Len::Lit(s.range(1, 5).to_string())),
        _ => t,
    }
}

fn fresh_id(s: &mut Src, used: &[String]) -> String {
    let mut id = s.int(32) as u32;
    while used.contains(&id.to_string()) {
        id = id.wrapping_add(1);
    }
    id.to_string()
}

/// Makes one change that matters, and says which.
pub fn semantic(s: &mut Src, set: &mut [(String, Schema)]) -> (&'static str, String) {
    let all = type_names(set);
    // the kind first, so that rare ones get their share
    if s.chance(1, 10) {
        return ("a name", rename(s, set));
    }
    let mut kinds: Vec<(&'static str, usize)> = vec![];
    sites(set, &mut |k, _| match kinds.iter_mut().find(|x| x.0 == k) {
        Some(x) => x.1 += 1,
        None => kinds.push((k, 1)),
    });
    if kinds.is_empty() {
        return ("a name", rename(s, set));
    }
    let (kind, n) = *s.pick(&kinds);
    let which = s.us(n);
    let mut at = 0;
    let mut what = String::new();
    sites(set, &mut |k, site| {
        if k == kind {
            if at == which {
                let how = apply(s, site, &all);
                what = how;
            }
            at += 1;
        }
    });
    (kind, what)
}

fn apply(s: &mut Src, site: Site, all: &[(String, String)]) -> String {
    match site {
        Site::Name(n) => {
            let old = n.clone();
            match s.below(5) {
                0 => n.push('x'),
                1 => n.push('_'),
                2 => n.insert(0, 'z'),
                3 => {
                    let k = s.us(n.len().max(1));
                    let t = |(i, c): (usize, char)| match i == k {
                        true if c.is_ascii_lowercase() => c.to_ascii_uppercase(),
                        true => c.to_ascii_lowercase(),
                        false => c,
                    };
                    *n = n.chars().enumerate().map(t).collect();
                    if *n == old {
                        n.push('y');
                    }
                }
                _ if n.len() > 1 && n.as_bytes()[n.len() - 2].is_ascii_alphabetic() => {
                    n.pop();
                }
                _ => n.push('2'),
            }
            format!("{old} becomes {n}")
        }
        Site::Id(id) => {
            let old = id.clone();
            let v: u32 = id.parse().unwrap();
            *id = match s.below(4) {
                0 => v.wrapping_add(1),
                1 => v ^ (1 << s.below(32)),
                2 => v.wrapping_sub(1),
                _ => v ^ (s.int(32) as u32).max(1),
            }
            .to_string();
            format!("{old} becomes {id}")
        }
        Site::Required(b) => {
            *b = !*b;
            format!("becomes {b}")
        }
        Site::Ty(t) => {
            let old = t.clone();
            change_ty(s, t, all);
            format!("{old:?} becomes {t:?}")
        }
        Site::OptTy(t) => {
            *t = if t.is_some() { None } else { Some(some_type(s, all)) };
            format!("becomes {t:?}")
        }
        Site::Part(p) => {
            *p = if p.is_some() { None } else { Some(FnPart { comment: vec![], ty: Inline::Ty(some_type(s, all)) }) };
            format!("becomes {p:?}")
        }
        Site::Parts(a, b) => {
            std::mem::swap(a, b);
            "swapped".into()
        }
        Site::Ev(t) => {
            *t = if t.is_some() { None } else { Some(Inline::Ty(some_type(s, all))) };
            format!("becomes {t:?}")
        }
        Site::Fallback(f) => {
            *f = if f.is_some() { None } else { Some(Fallback { pre: Pre::default(), name: "another_one".into() }) };
            format!("becomes {f:?}")
        }
        Site::Fields(v) => {
            let used: Vec<_> = v.iter().map(|f| f.id.clone()).collect();
            match s.below(4) {
                0 if !v.is_empty() => {
                    let i = s.us(v.len());
                    v.remove(i);
                    "one less".into()
                }
                1 if v.len() > 1 => {
                    let (i, j) = two(s, v.len());
                    let t = v[i].name.clone();
                    v[i].name = std::mem::replace(&mut v[j].name, t);
                    "names swapped".into()
                }
                2 if v.len() > 1 => {
                    let (i, j) = two(s, v.len());
                    let t = v[i].id.clone();
                    v[i].id = std::mem::replace(&mut v[j].id, t);
                    "ids swapped".into()
                }
                _ => {
                    let at = s.us(v.len() + 1);
                    v.insert(at, Field { pre: Pre::default(), required: s.bool(), name: "added".into(), id: fresh_id(s, &used), ty: some_type(s, all) });
                    "one more".into()
                }
            }
        }
        Site::Vars(v) => {
            let used: Vec<_> = v.iter().map(|f| f.id.clone()).collect();
            match s.below(4) {
                0 if v.len() > 1 => {
                    let i = s.us(v.len());
                    v.remove(i);
                    "one less".into()
                }
                1 if v.len() > 1 => {
                    let (i, j) = two(s, v.len());
                    let t = v[i].name.clone();
                    v[i].name = std::mem::replace(&mut v[j].name, t);
                    "names swapped".into()
                }
                2 if v.len() > 1 => {
                    let (i, j) = two(s, v.len());
                    let t = v[i].id.clone();
                    v[i].id = std::mem::replace(&mut v[j].id, t);
                    "ids swapped".into()
                }
                _ => {
                    let at = s.us(v.len() + 1);
                    v.insert(at, Variant { pre: Pre::default(), name: "Added".into(), id: fresh_id(s, &used), ty: s.bool().then(|| some_type(s, all)) });
                    "one more".into()
                }
            }
        }
        Site::Items(v) => {
            let (mut fns, mut evs) = (vec![], vec![]);
            for i in v.iter() {
                match i {
                    Item::Fn { id, .. } => fns.push(id.clone()),
                    Item::Ev { id, .. } => evs.push(id.clone()),
                }
            }
            match s.below(4) {
                0 if !v.is_empty() => {
                    let i = s.us(v.len());
                    v.remove(i);
                    "one less".into()
                }
                1 if v.len() > 1 => {
                    // the same kinds only
                    let (i, j) = two(s, v.len());
                    let (a, b) = v.split_at_mut(i.max(j));
                    match (&mut a[i.min(j)], &mut b[0]) {
                        (Item::Fn { name: x, .. }, Item::Fn { name: y, .. }) | (Item::Ev { name: x, .. }, Item::Ev { name: y, .. }) => {
                            std::mem::swap(x, y);
                            "names swapped".into()
                        }
                        (Item::Fn { id: x, .. }, Item::Ev { id: y, .. }) | (Item::Ev { id: x, .. }, Item::Fn { id: y, .. }) => {
                            std::mem::swap(x, y);
                            "ids of a function and an event swapped".into()
                        }
                    }
                }
                2 => {
                    v.push(Item::Fn { pre: Pre::default(), name: "added_fn".into(), id: fresh_id(s, &fns), args: None, ok: None, err: None });
                    "one more function".into()
                }
                _ => {
                    v.push(Item::Ev { pre: Pre::default(), name: "added_ev".into(), id: fresh_id(s, &evs), ty: None });
                    "one more event".into()
                }
            }
        }
        Site::Def(d) => {
            // to another kind of type
            match d {
                Def::Struct { pre, name, fields, .. } => {
                    let ty = fields.first().map_or(Ty::Prim("u8"), |f| f.ty.clone());
                    *d = if s.bool() {
                        let vars = fields
                            .iter()
                            .map(|f| Variant { pre: f.pre.clone(), name: f.name.clone(), id: f.id.clone(), ty: Some(f.ty.clone()) })
                            .chain(std::iter::once(Variant { pre: Pre::default(), name: "Last".into(), id: "4000000000".into(), ty: None }))
                            .collect();
                        Def::Enum { pre: pre.clone(), name: name.clone(), vars, fallback: None }
                    } else {
                        Def::Newtype { pre: pre.clone(), name: name.clone(), ty }
                    };
                }
                Def::Enum { pre, name, .. } | Def::Newtype { pre, name, .. } => {
                    *d = Def::Struct { pre: pre.clone(), name: name.clone(), fields: vec![], fallback: None };
                }
                Def::Service(_) | Def::Const { .. } => return "nothing".into(),
            }
            "another kind".into()
        }
        Site::Const(v) => {
            let old = v.clone();
            let n: i128 = v.parse().unwrap();
            *v = if n < 100 { n + 1 } else { n - 1 }.to_string();
            format!("{old} becomes {v}")
        }
    }
}

fn two(s: &mut Src, n: usize) -> (usize, usize) {
    let i = s.us(n);
    (i, (i + 1 + s.us(n - 1)) % n)
}

fn change_ty(s: &mut Src, t: &mut Ty, all: &[(String, String)]) {
    match (s.below(4), &mut *t) {
        (0, Ty::One(k, _)) => {
            let other: Vec<_> = ["option", "box", "vec", "sender", "receiver"].into_iter().filter(|x| x != k).collect();
            *k = s.pick(&other);
        }
        (0, Ty::Result(a, b)) => std::mem::swap(a, b),
        (0, Ty::Map(k, _)) => **k = Ty::Prim(s.pick(&model::KEYS)),
        (0, Ty::Array(_, l)) => *l = Len::Lit(s.range(1, 6).to_string()),
        (1, Ty::One(_, x)) => *t = (**x).clone(),
        (1, _) | (2, _) if s.bool() => {
            let k = *s.pick(&["option", "box", "vec", "sender", "receiver"]);
            *t = Ty::One(k, Box::new(t.clone()));
        }
        _ => *t = some_type(s, all),
    }
}

/// Renames a schema, a type or a service, everywhere.
fn rename(s: &mut Src, set: &mut [(String, Schema)]) -> String {
    let k = s.us(set.len());
    let m = set[k].0.clone();
    if set[k].1.defs.is_empty() || s.chance(1, 3) {
        let new = format!("{m}{}", s.pick(&["x", "_", "2"]));
        rename_refs(set, &|_, r, _| {
            if r.as_ref() == Some(&m) {
                *r = Some(new.clone());
            }
        });
        for (n, x) in set.iter_mut() {
            for i in &mut x.imports {
                if i.1 == m {
                    i.1 = new.clone();
                }
            }
            if *n == m {
                *n = new.clone();
            }
        }
        return format!("schema {m} becomes {new}");
    }
    let i = s.us(set[k].1.defs.len());
    let old = set[k].1.defs[i].name().to_owned();
    let new = format!("{old}{}", s.pick(&["x", "_", "2"]));
    rename_refs(set, &|at, r, n| {
        if *n == old && (r.as_ref() == Some(&m) || (r.is_none() && at == k)) {
            *n = new.clone();
        }
    });
    match &mut set[k].1.defs[i] {
        Def::Struct { name, .. } | Def::Enum { name, .. } | Def::Newtype { name, .. } | Def::Const { name, .. } => *name = new.clone(),
        Def::Service(v) => v.name = new.clone(),
    }
    format!("{m}::{old} becomes {new}")
}

/// References to types of other schemas as they have to be written.
pub fn tidy_refs(set: &mut [(String, Schema)]) {
    let names: Vec<_> = set.iter().map(|x| x.0.clone()).collect();
    rename_refs(set, &|at, m, _| {
        if m.as_ref() == Some(&names[at]) {
            *m = None;
        }
    });
    for (i, (_, s)) in set.iter_mut().enumerate() {
        for (j, n) in names.iter().enumerate() {
            if j != i && !s.imports.iter().any(|x| x.1 == *n) {
                s.imports.push((vec![], n.clone()));
            }
        }
    }
}

/// Makes changes that do not matter: order, text, and how array lengths are written.
pub fn cosmetic(s: &mut Src, set: &mut [(String, Schema)], text: &dyn Fn(&mut Src) -> Vec<String>) {
    if s.bool() {
        shuffle(s, set);
    }
    let pre = |s: &mut Src, p: &mut Pre| {
        if s.bool() {
            p.doc = text(s);
        }
        if s.chance(1, 4) {
            p.comment = text(s);
        }
    };
    let fb = |s: &mut Src, f: &mut Option<Fallback>| {
        if let Some(f) = f {
            pre(s, &mut f.pre);
        }
    };
    for (_, x) in set.iter_mut() {
        if s.chance(1, 4) {
            x.doc = text(s);
        }
        shuffle(s, &mut x.imports);
        if s.chance(3, 4) {
            shuffle(s, &mut x.defs);
        }
        let go = |s: &mut Src, v: &mut Vec<Field>, f: &mut Option<Fallback>| {
            shuffle(s, v);
            v.iter_mut().for_each(|x| pre(s, &mut x.pre));
            fb(s, f);
        };
        let gv = |s: &mut Src, v: &mut Vec<Variant>, f: &mut Option<Fallback>| {
            shuffle(s, v);
            v.iter_mut().for_each(|x| pre(s, &mut x.pre));
            fb(s, f);
        };
        let gi = |s: &mut Src, i: &mut Inline| match i {
            Inline::Ty(_) => {}
            Inline::Struct(p, v, f) => {
                pre(s, p);
                go(s, v, f);
            }
            Inline::Enum(p, v, f) => {
                pre(s, p);
                gv(s, v, f);
            }
        };
        for d in &mut x.defs {
            match d {
                Def::Struct { pre: p, fields, fallback, .. } => {
                    pre(s, p);
                    go(s, fields, fallback);
                }
                Def::Enum { pre: p, vars, fallback, .. } => {
                    pre(s, p);
                    gv(s, vars, fallback);
                }
                Def::Newtype { pre: p, .. } | Def::Const { pre: p, .. } => pre(s, p),
                Def::Service(v) => {
                    pre(s, &mut v.pre);
                    shuffle(s, &mut v.items);
                    fb(s, &mut v.fn_fallback);
                    fb(s, &mut v.ev_fallback);
                    for i in &mut v.items {
                        match i {
                            Item::Fn { pre: p, args, ok, err, .. } => {
                                pre(s, p);
                                for x in [args, ok, err].into_iter().flatten() {
                                    gi(s, &mut x.ty);
                                }
                            }
                            Item::Ev { pre: p, ty, .. } => {
                                pre(s, p);
                                if let Some(t) = ty {
                                    gi(s, t);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // lengths that are constants, spelled out
    let old = set.to_vec();
    let names: Vec<_> = old.iter().map(|x| x.0.clone()).collect();
    for i in 0..set.len() {
        sites(&mut set[i..i + 1], &mut |_, site| {
            if let Site::Ty(Ty::Array(_, l)) = site {
                if let Len::Ref(m, n) = l {
                    if s.bool() {
                        let m = m.as_ref().unwrap_or(&names[i]);
                        let d = &old.iter().find(|x| x.0 == *m).unwrap().1.defs;
                        if let Some(Def::Const { val, .. }) = d.iter().find(|d| d.name() == n) {
                            *l = Len::Lit(val.clone());
                        }
                    }
                }
            }
        });
    }
}

/// Adds fields whose types are alike: what tells them apart is easily lost in an id.
pub fn look_alikes(s: &mut Src, set: &mut [(String, Schema)]) {
    sites(set, &mut |_, site| {
        let Site::Fields(v) = site else { return };
        if v.iter().any(|f| f.name.starts_with("alike")) || !s.chance(1, 2) {
            return;
        }
        let prim = |s: &mut Src| Ty::Prim(s.pick(&model::PRIMS));
        let (a, b) = (prim(s), prim(s));
        let arr = |t: &Ty, n: usize| Ty::Array(Box::new(t.clone()), Len::Lit(n.to_string()));
        let one = |k: &'static str, t: &Ty| Ty::One(k, Box::new(t.clone()));
        let pair = match s.below(6) {
            0 => {
                let n = s.range(1, 300);
                let far = n + (1 << s.pick(&[8u32, 16, 24, 31]));
                [arr(&a, n), arr(&a, far)]
            }
            1 => [Ty::Result(Box::new(a.clone()), Box::new(b.clone())), Ty::Result(Box::new(b), Box::new(a))],
            2 => {
                let (j, k) = (Ty::Prim(s.pick(&model::KEYS)), Ty::Prim(s.pick(&model::KEYS)));
                [Ty::Map(Box::new(j.clone()), Box::new(k.clone())), Ty::Map(Box::new(k), Box::new(j))]
            }
            3 => {
                let k = Ty::Prim(s.pick(&model::KEYS));
                [Ty::Map(Box::new(k.clone()), Box::new(k.clone())), one("set", &k)]
            }
            4 => [one("sender", &a), one("receiver", &a)],
            _ => [arr(&arr(&a, 2), 3), arr(&arr(&a, 3), 2)],
        };
        for (i, ty) in pair.into_iter().enumerate() {
            let used: Vec<_> = v.iter().map(|f| f.id.clone()).collect();
            v.push(Field { pre: Pre::default(), required: s.bool(), name: format!("alike{i}"), id: fresh_id(s, &used), ty });
        }
    });
}

/// Gives some definition many members of types of their own.
pub fn widen(s: &mut Src, set: &mut [(String, Schema)]) {
    let all = type_names(set);
    sites(set, &mut |_, site| {
        if !s.chance(1, 4) {
            return;
        }
        let n = s.range(3, 9);
        let ty = |s: &mut Src| match s.below(4) {
            0 if !all.is_empty() => {
                let (m, n) = s.pick(&all).clone();
                Ty::One(if s.bool() { "vec" } else { "box" }, Box::new(Ty::Ref(Some(m), n)))
            }
            1 => Ty::One("vec", Box::new(Ty::Prim(s.pick(&model::PRIMS)))),
            2 => Ty::Map(Box::new(Ty::Prim(s.pick(&model::KEYS))), Box::new(Ty::Prim(s.pick(&model::PRIMS)))),
            _ => Ty::Prim(s.pick(&model::PRIMS)),
        };
        match site {
            Site::Fields(v) if v.len() < 12 => {
                for i in 0..n {
                    let used: Vec<_> = v.iter().map(|f| f.id.clone()).collect();
                    v.push(Field { pre: Pre::default(), required: s.bool(), name: format!("wide{i}"), id: fresh_id(s, &used), ty: ty(s) });
                }
            }
            Site::Vars(v) if v.len() < 12 => {
                for i in 0..n {
                    let used: Vec<_> = v.iter().map(|f| f.id.clone()).collect();
                    let t = s.chance(4, 5).then(|| ty(s));
                    v.push(Variant { pre: Pre::default(), name: format!("Wide{i}"), id: fresh_id(s, &used), ty: t });
                }
            }
            _ => {}
        }
    });
    tidy_refs(set);
}
