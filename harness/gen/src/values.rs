//! Values that belong to a type, values that nearly do, and what decoding and encoding again makes
//! of them.
use crate::types::{Types, D, R};
use std::collections::BTreeMap;
use vp::wire::{self, N};
use vp::Src;

pub struct Gen<'a> {
    pub t: &'a Types,
    pub budget: isize,
    /// The value became too large, and what was generated of it is of no use.
    pub over: bool,
}

fn uuid(s: &mut Src) -> [u8; 16] {
    wire::gen_uuid(s)
}

pub fn prim(s: &mut Src, p: &str, depth: usize) -> N {
    match p {
        "bool" => N::Bool(s.bool()),
        "u8" => N::U8(s.int(8) as u8),
        "i8" => N::I8(s.int(8) as u8 as i8),
        "u16" => N::U16(s.int(16) as u16),
        "i16" => N::I16(wire::sint(s, 16) as i16),
        "u32" => N::U32(s.int(32) as u32),
        "i32" => N::I32(wire::sint(s, 32) as i32),
        "u64" => N::U64(s.int(64)),
        "i64" => N::I64(wire::sint(s, 64)),
        "f32" => N::F32(wire::gen_f32(s)),
        "f64" => N::F64(wire::gen_f64(s)),
        "string" => N::Str(wire::gen_string(s, 12)),
        "uuid" => N::Uuid(uuid(s)),
        "object_id" | "lifetime" => {
            let mut o = [0; 32];
            o[..16].copy_from_slice(&uuid(s));
            o[16..].copy_from_slice(&uuid(s));
            N::Oid(o)
        }
        "service_id" => {
            let mut o = [0; 64];
            for i in 0..4 {
                o[16 * i..16 * i + 16].copy_from_slice(&uuid(s));
            }
            N::Sid(o)
        }
        "value" => any(s, depth),
        "unit" => N::None,
        p => panic!("{p}"),
    }
}

/// Any value of at most `depth` levels.
pub fn any(s: &mut Src, depth: usize) -> N {
    let mut budget = 12;
    match s.below(8) {
        0 => wire::gen_chain(s, depth.min(4)),
        1 if depth > 1 => wire::gen_chain(s, depth),
        _ => small(wire::gen_value(s, depth.min(5), &mut budget)),
    }
}

/// Long vectors, byte strings and sets add nothing here.
fn small(n: N) -> N {
    if n.size() > 300 {
        N::U8(1)
    } else {
        n
    }
}

impl Gen<'_> {
    /// A value of `r` of at most `depth` levels, of which `r` must have one.
    pub fn value(&mut self, s: &mut Src, r: &R, depth: usize) -> N {
        self.budget -= 1;
        if self.budget < -6000 {
            self.over = true;
            return N::None;
        }
        let rich = self.budget > 0 && depth > 1;
        let n = |s: &mut Src| if rich { s.small(5) } else { 0 };
        match r {
            R::Prim(p) => prim(s, p, depth),
            R::Opt(t) => match self.t.height(t) {
                Some(h) if h < depth && rich && s.chance(3, 4) => N::Some(Box::new(self.value(s, t, depth - 1))),
                _ => N::None,
            },
            R::Vec(t) => {
                let n = n(s);
                match self.t.height(t) {
                    Some(h) if h < depth => N::Vec((0..n).map(|_| self.value(s, t, depth - 1)).collect()),
                    _ => N::Vec(vec![]),
                }
            }
            R::Bytes => {
                let n = s.small(20);
                N::Bytes(s.bulk(n))
            }
            R::Map(k, t) => {
                let n = n(s);
                match self.t.height(t) {
                    Some(h) if h < depth => {
                        N::Map(*k, (0..n).map(|_| (wire::gen_key(s, *k), self.value(s, t, depth - 1))).collect())
                    }
                    _ => N::Map(*k, BTreeMap::new()),
                }
            }
            R::Set(k) => {
                let n = n(s);
                N::Set(*k, (0..n).map(|_| wire::gen_key(s, *k)).collect())
            }
            R::Sender => N::Sender(uuid(s)),
            R::Receiver => N::Receiver(uuid(s)),
            R::Result(a, b) => {
                let fits = |t| self.t.height(t).is_some_and(|h| h < depth);
                let ok = match (fits(a), fits(b)) {
                    (true, true) => s.bool(),
                    (x, _) => x,
                };
                N::Enum(!ok as u32, Box::new(self.value(s, if ok { a } else { b }, depth - 1)))
            }
            R::Array(t, n) => {
                let mut v = vec![self.value(s, t, depth - 1)];
                for i in 1..*n {
                    if self.over {
                        break;
                    }
                    if *n > 6 && i > 2 && i + 1 < *n {
                        self.budget -= v[0].size() as isize;
                        self.over |= self.budget < -6000;
                        v.push(v[0].clone());
                    } else {
                        v.push(self.value(s, t, depth - 1));
                    }
                }
                N::Vec(v)
            }
            R::Box(t) => self.value(s, t, depth),
            R::Def(i) => self.def(s, &self.t.entries[*i].d, depth),
        }
    }

    pub fn def(&mut self, s: &mut Src, d: &D, depth: usize) -> N {
        let rich = self.budget > 0;
        match d {
            D::Newtype(t) => self.value(s, t, depth),
            D::Struct(fs, _) => {
                let mut m = BTreeMap::new();
                for f in fs {
                    let h = self.t.height(&f.ty);
                    if f.required {
                        m.insert(f.id, self.value(s, &f.ty, depth - 1));
                        continue;
                    }
                    // of an optional field, the value is another level
                    match (s.below(if rich { 5 } else { 2 }), h) {
                        (0, _) => {}
                        (1, _) if depth > 1 => {
                            m.insert(f.id, N::None);
                        }
                        (_, Some(h)) if h + 2 <= depth => {
                            m.insert(f.id, N::Some(Box::new(self.value(s, &f.ty, depth - 2))));
                        }
                        _ => {}
                    }
                }
                if depth > 1 && s.chance(2, 5) {
                    for _ in 0..s.range(1, 3) {
                        let id = unknown_id(s, fs.iter().map(|f| f.id));
                        m.insert(id, any(s, depth - 1));
                    }
                }
                N::Struct(m)
            }
            D::Enum(vs, fb) => {
                let mut c: Vec<_> = vs
                    .iter()
                    .filter(|v| v.2.as_ref().map_or(Some(1), |t| self.t.height(t)).is_some_and(|h| h < depth))
                    .map(Some)
                    .collect();
                if fb.is_some() && depth > 1 {
                    c.push(None);
                }
                match *s.pick(&c) {
                    None => {
                        let id = unknown_id(s, vs.iter().map(|v| v.1));
                        N::Enum(id, Box::new(any(s, depth - 1)))
                    }
                    Some((_, id, None)) => N::Enum(*id, Box::new(N::None)),
                    Some((_, id, Some(t))) => N::Enum(*id, Box::new(self.value(s, t, depth - 1))),
                }
            }
        }
    }
}

fn unknown_id(s: &mut Src, known: impl Iterator<Item = u32> + Clone) -> u32 {
    let mut id = s.int(32) as u32;
    while known.clone().any(|k| k == id) {
        id = id.wrapping_add(1);
    }
    id
}

pub struct Project<'a> {
    pub t: &'a Types,
    /// Some field or variant that the type does not know was kept.
    pub kept: u64,
    pub dropped: u64,
}

impl Project<'_> {
    /// What is left of a value after decoding it as `r` and encoding it again, or why it cannot be
    /// decoded.
    pub fn value(&mut self, r: &R, n: &N) -> Result<N, String> {
        let no = || Err(format!("{n:?} is no {r:?}"));
        Ok(match (r, n) {
            (R::Prim("value"), _) => n.clone(),
            (R::Prim(p), _) => {
                let k = match n {
                    N::None => &["unit"][..],
                    N::Bool(_) => &["bool"],
                    N::U8(_) => &["u8"],
                    N::I8(_) => &["i8"],
                    N::U16(_) => &["u16"],
                    N::I16(_) => &["i16"],
                    N::U32(_) => &["u32"],
                    N::I32(_) => &["i32"],
                    N::U64(_) => &["u64"],
                    N::I64(_) => &["i64"],
                    N::F32(_) => &["f32"],
                    N::F64(_) => &["f64"],
                    N::Str(_) => &["string"],
                    N::Uuid(_) => &["uuid"],
                    N::Oid(_) => &["object_id", "lifetime"],
                    N::Sid(_) => &["service_id"],
                    _ => &[],
                };
                if !k.contains(p) {
                    return no();
                }
                n.clone()
            }
            (R::Opt(_), N::None) => N::None,
            (R::Opt(t), N::Some(x)) => N::Some(Box::new(self.value(t, x)?)),
            (R::Vec(t), N::Vec(v)) => N::Vec(v.iter().map(|x| self.value(t, x)).collect::<Result<_, _>>()?),
            (R::Array(t, k), N::Vec(v)) if v.len() == *k => N::Vec(v.iter().map(|x| self.value(t, x)).collect::<Result<_, _>>()?),
            (R::Bytes, N::Bytes(_)) | (R::Sender, N::Sender(_)) | (R::Receiver, N::Receiver(_)) => n.clone(),
            (R::Map(k, t), N::Map(k2, m)) if k == k2 => {
                N::Map(*k, m.iter().map(|(k, x)| Ok((k.clone(), self.value(t, x)?))).collect::<Result<_, String>>()?)
            }
            (R::Set(k), N::Set(k2, _)) if k == k2 => n.clone(),
            (R::Result(a, _), N::Enum(0, x)) => N::Enum(0, Box::new(self.value(a, x)?)),
            (R::Result(_, b), N::Enum(1, x)) => N::Enum(1, Box::new(self.value(b, x)?)),
            (R::Box(t), _) => return self.value(t, n),
            (R::Def(i), _) => return self.def(&self.t.entries[*i].d, n),
            _ => return no(),
        })
    }

    pub fn def(&mut self, d: &D, n: &N) -> Result<N, String> {
        match (d, n) {
            (D::Newtype(t), _) => self.value(t, n),
            (D::Struct(fs, fb), N::Struct(m)) => {
                let mut out = BTreeMap::new();
                for f in fs {
                    match m.get(&f.id) {
                        None if f.required => return Err(format!("field {} is missing", f.name)),
                        None => {}
                        Some(x) if f.required => {
                            out.insert(f.id, self.value(&f.ty, x)?);
                        }
                        Some(N::None) => {}
                        Some(N::Some(x)) => {
                            out.insert(f.id, N::Some(Box::new(self.value(&f.ty, x)?)));
                        }
                        Some(x) => return Err(format!("optional field {} is {x:?}", f.name)),
                    }
                }
                for (id, x) in m {
                    if fs.iter().any(|f| f.id == *id) {
                        continue;
                    }
                    if fb.is_some() {
                        self.kept += 1;
                        out.insert(*id, x.clone());
                    } else {
                        self.dropped += 1;
                    }
                }
                Ok(N::Struct(out))
            }
            (D::Enum(vs, fb), N::Enum(id, x)) => match vs.iter().find(|v| v.1 == *id) {
                Some((_, _, None)) if **x == N::None => Ok(n.clone()),
                Some((name, _, None)) => Err(format!("variant {name} has a value")),
                Some((_, _, Some(t))) => Ok(N::Enum(*id, Box::new(self.value(t, x)?))),
                None if fb.is_some() => {
                    self.kept += 1;
                    Ok(n.clone())
                }
                None => Err(format!("unknown variant {id}")),
            },
            _ => Err(format!("{n:?} is no {d:?}")),
        }
    }
}

/// Changes one place of a value.
pub fn mutate(s: &mut Src, n: &mut N) {
    let mut k = s.below(n.size() as u64) as usize;
    visit(n, &mut k, &mut |n| edit(s, n));
}

fn visit(n: &mut N, k: &mut usize, f: &mut dyn FnMut(&mut N)) -> bool {
    if *k == 0 {
        f(n);
        return true;
    }
    *k -= 1;
    match n {
        N::Some(x) | N::Enum(_, x) => visit(x, k, f),
        N::Vec(v) => v.iter_mut().any(|x| visit(x, k, f)),
        N::Map(_, m) => m.values_mut().any(|x| visit(x, k, f)),
        N::Struct(m) => m.values_mut().any(|x| visit(x, k, f)),
        N::Set(_, m) => {
            if *k < m.len() {
                *k = 0;
                f(n);
                return true;
            }
            *k -= m.len();
            false
        }
        _ => false,
    }
}

fn edit(s: &mut Src, n: &mut N) {
    let other = |s: &mut Src| wire::gen_leaf(s);
    match n {
        N::Struct(m) if s.chance(3, 4) => {
            let ids: Vec<u32> = m.keys().copied().collect();
            if ids.is_empty() {
                m.insert(s.int(32) as u32, N::U8(1));
                return;
            }
            let id = *s.pick(&ids);
            match s.below(4) {
                0 | 1 => {
                    m.remove(&id);
                }
                2 => {
                    let x = m.remove(&id).unwrap();
                    m.insert(id.wrapping_add(1), x);
                }
                _ => {
                    let x = m.remove(&id).unwrap();
                    let x = match x {
                        N::Some(x) => *x,
                        x => N::Some(Box::new(x)),
                    };
                    m.insert(id, x);
                }
            }
        }
        N::Enum(id, x) if s.chance(3, 4) => match s.below(4) {
            0 => *id = id.wrapping_add(1),
            1 => *id = s.int(32) as u32,
            2 => **x = other(s),
            _ => **x = N::None,
        },
        N::Vec(v) if s.chance(3, 4) => match s.below(3) {
            0 => {
                v.pop();
            }
            1 => {
                let x = v.last().cloned().unwrap_or(N::U8(3));
                v.push(x);
            }
            _ => *n = N::Bytes(vec![1, 2, 3]),
        },
        N::Some(_) if s.chance(1, 2) => {
            let N::Some(x) = std::mem::replace(n, N::None) else { unreachable!() };
            *n = *x;
        }
        N::Map(k, m) if s.chance(1, 2) => *n = N::Map((*k + 1) % 10, if m.is_empty() { BTreeMap::new() } else { [(wire::gen_key(s, (*k + 1) % 10), N::None)].into() }),
        N::Set(k, _) if s.chance(1, 2) => *n = N::Set((*k + 1) % 10, Default::default()),
        N::Bytes(b) if s.chance(1, 2) => *n = N::Vec(b.iter().map(|b| N::U8(*b)).collect()),
        N::U8(x) if s.chance(1, 2) => *n = N::U16(*x as u16),
        N::U32(x) if s.chance(1, 2) => *n = N::U64(*x as u64),
        N::I32(x) if s.chance(1, 2) => *n = N::I64(*x as i64),
        N::Str(x) if s.chance(1, 2) => *n = N::Bytes(x.clone()),
        N::Sender(x) if s.chance(1, 2) => *n = N::Receiver(*x),
        N::Receiver(x) if s.chance(1, 2) => *n = N::Sender(*x),
        N::Uuid(_) if s.chance(1, 2) => *n = N::None,
        _ => *n = other(s),
    }
}
