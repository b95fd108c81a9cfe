//! What the definitions of a set of schemas mean for values.
use crate::model::{Def, Field, Inline, Item, Len, Schema, Ty, Variant};
use aldrin_codegen::rust::names;

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Prim(&'static str),
    Opt(Box<R>),
    /// The same as what is in it, as far as values are concerned.
    Box(Box<R>),
    Vec(Box<R>),
    Bytes,
    Map(u8, Box<R>),
    Set(u8),
    Sender,
    Receiver,
    Result(Box<R>, Box<R>),
    Array(Box<R>, usize),
    Def(usize),
}

#[derive(Clone, Debug)]
pub struct F {
    pub name: String,
    pub id: u32,
    pub required: bool,
    pub ty: R,
}

#[derive(Clone, Debug)]
pub enum D {
    Struct(Vec<F>, Option<String>),
    Enum(Vec<(String, u32, Option<R>)>, Option<String>),
    Newtype(R),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub schema: String,
    pub name: String,
    pub d: D,
    /// Part of a service's definition.
    pub inline: bool,
    /// Levels of the smallest value; `None` if there is no finite one.
    pub height: Option<usize>,
}

pub struct Types {
    pub entries: Vec<Entry>,
}

struct Cx<'a> {
    set: &'a [(String, Schema)],
    index: Vec<(String, String)>,
}

pub const KINDS: [&str; 10] = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "string", "uuid"];

impl Cx<'_> {
    fn def(&self, si: usize, m: &Option<String>, n: &str) -> (usize, &Def) {
        let si = m.as_ref().map_or(si, |m| self.set.iter().position(|s| s.0 == *m).expect("schema"));
        (si, self.set[si].1.defs.iter().find(|d| d.name() == n).expect("definition"))
    }

    fn key(&self, si: usize, t: &Ty) -> u8 {
        match t {
            Ty::Prim(p) => KINDS.iter().position(|k| k == p).expect("key type") as u8,
            Ty::Ref(m, n) => match self.def(si, m, n) {
                (si, Def::Newtype { ty, .. }) => self.key(si, ty),
                _ => panic!("not a key type"),
            },
            _ => panic!("not a key type"),
        }
    }

    fn r(&self, si: usize, t: &Ty) -> R {
        let b = |t: &Ty| Box::new(self.r(si, t));
        match t {
            Ty::Prim("bytes") => R::Bytes,
            Ty::Prim(p) => R::Prim(p),
            Ty::One("option", t) => R::Opt(b(t)),
            Ty::One("box", t) => R::Box(b(t)),
            Ty::One("vec", t) if **t == Ty::Prim("u8") => R::Bytes,
            Ty::One("vec", t) => R::Vec(b(t)),
            Ty::One("set", t) => R::Set(self.key(si, t)),
            Ty::One("sender", _) => R::Sender,
            Ty::One(_, _) => R::Receiver,
            Ty::Map(k, v) => R::Map(self.key(si, k), b(v)),
            Ty::Result(x, y) => R::Result(b(x), b(y)),
            Ty::Array(t, Len::Lit(n)) => R::Array(b(t), n.parse().unwrap()),
            Ty::Array(t, Len::Ref(m, n)) => match self.def(si, m, n) {
                (_, Def::Const { val, .. }) => R::Array(b(t), val.parse().unwrap()),
                _ => panic!("not a constant"),
            },
            Ty::Ref(m, n) => {
                let s = m.clone().unwrap_or_else(|| self.set[si].0.clone());
                R::Def(self.index.iter().position(|x| x.0 == s && x.1 == *n).expect("type"))
            }
        }
    }

    fn fields(&self, si: usize, f: &[Field]) -> Vec<F> {
        f.iter().map(|f| F { name: f.name.clone(), id: f.id.parse().unwrap(), required: f.required, ty: self.r(si, &f.ty) }).collect()
    }

    fn vars(&self, si: usize, v: &[Variant]) -> Vec<(String, u32, Option<R>)> {
        v.iter().map(|v| (v.name.clone(), v.id.parse().unwrap(), v.ty.as_ref().map(|t| self.r(si, t)))).collect()
    }
}

impl Types {
    pub fn new(set: &[(String, Schema)]) -> Self {
        let mut cx = Cx { set, index: vec![] };
        // named types first, so that references can be resolved
        for (s, sch) in set {
            for d in &sch.defs {
                if matches!(d, Def::Struct { .. } | Def::Enum { .. } | Def::Newtype { .. }) {
                    cx.index.push((s.clone(), d.name().into()));
                }
            }
        }
        let mut entries = vec![];
        for (si, (s, sch)) in set.iter().enumerate() {
            for d in &sch.defs {
                let (name, d) = match d {
                    Def::Struct { name, fields, fallback, .. } => {
                        (name, D::Struct(cx.fields(si, fields), fallback.as_ref().map(|f| f.name.clone())))
                    }
                    Def::Enum { name, vars, fallback, .. } => {
                        (name, D::Enum(cx.vars(si, vars), fallback.as_ref().map(|f| f.name.clone())))
                    }
                    Def::Newtype { name, ty, .. } => (name, D::Newtype(cx.r(si, ty))),
                    _ => continue,
                };
                entries.push(Entry { schema: s.clone(), name: name.clone(), d, inline: false, height: None });
            }
        }
        for (si, (s, sch)) in set.iter().enumerate() {
            for d in &sch.defs {
                let Def::Service(v) = d else { continue };
                let mut add = |i: &Inline, name: String| {
                    let d = match i {
                        Inline::Ty(_) => return,
                        Inline::Struct(_, f, fb) => D::Struct(cx.fields(si, f), fb.as_ref().map(|f| f.name.clone())),
                        Inline::Enum(_, v, fb) => D::Enum(cx.vars(si, v), fb.as_ref().map(|f| f.name.clone())),
                    };
                    entries.push(Entry { schema: s.clone(), name, d, inline: true, height: None });
                };
                for i in &v.items {
                    match i {
                        Item::Fn { name, args, ok, err, .. } => {
                            if let Some(p) = args {
                                add(&p.ty, names::function_args(&v.name, name));
                            }
                            if let Some(p) = ok {
                                add(&p.ty, names::function_ok(&v.name, name));
                            }
                            if let Some(p) = err {
                                add(&p.ty, names::function_err(&v.name, name));
                            }
                        }
                        Item::Ev { name, ty: Some(t), .. } => add(t, names::event_args(&v.name, name)),
                        Item::Ev { .. } => {}
                    }
                }
            }
        }
        let mut t = Types { entries };
        loop {
            let h: Vec<_> = t.entries.iter().map(|e| t.height_d(&e.d)).collect();
            let mut changed = false;
            for (e, h) in t.entries.iter_mut().zip(h) {
                changed |= e.height != h;
                e.height = h;
            }
            if !changed {
                return t;
            }
        }
    }

    fn height_d(&self, d: &D) -> Option<usize> {
        match d {
            D::Struct(f, _) => {
                let mut m = 0;
                for f in f.iter().filter(|f| f.required) {
                    m = m.max(self.height(&f.ty)?);
                }
                Some(1 + m)
            }
            D::Enum(v, fb) => {
                let v = v.iter().filter_map(|v| match &v.2 {
                    None => Some(2),
                    Some(t) => self.height(t).map(|h| h + 1),
                });
                v.chain(fb.iter().map(|_| 2)).min()
            }
            D::Newtype(t) => self.height(t),
        }
    }

    pub fn height(&self, r: &R) -> Option<usize> {
        match r {
            R::Result(a, b) => [self.height(a), self.height(b)].into_iter().flatten().min().map(|h| h + 1),
            R::Array(t, _) => self.height(t).map(|h| h + 1),
            R::Def(i) => self.entries[*i].height,
            R::Box(t) => self.height(t),
            _ => Some(1),
        }
    }

    /// About how many bytes the Rust type takes.
    pub fn bytes_of(&self, i: usize) -> u64 {
        self.bytes_d(&self.entries[i].d)
    }

    fn bytes_d(&self, d: &D) -> u64 {
        match d {
            D::Struct(f, _) => f.iter().map(|f| 8 + self.bytes_r(&f.ty)).fold(48, u64::saturating_add),
            D::Enum(v, _) => v.iter().filter_map(|v| v.2.as_ref()).map(|t| self.bytes_r(t)).max().unwrap_or(0).saturating_add(64),
            D::Newtype(t) => self.bytes_r(t),
        }
    }

    fn bytes_r(&self, r: &R) -> u64 {
        match r {
            R::Opt(t) => self.bytes_r(t).saturating_add(8),
            R::Result(a, b) => self.bytes_r(a).max(self.bytes_r(b)).saturating_add(8),
            R::Array(t, n) => self.bytes_r(t).saturating_mul(*n as u64),
            R::Def(i) => self.bytes_of(*i),
            _ => 72,
        }
    }
}
