//! Bridges between the model (`vp::wire::N`) and aldrin-core's values and (de)serializers.
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::tags::{self, KeyTag};
use aldrin_core::*;
use bytes::BytesMut;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use uuid::Uuid;
use vp::wire::{K, N};

fn u(b: &[u8]) -> Uuid {
    Uuid::from_slice(b).unwrap()
}

fn oid(b: &[u8; 32]) -> ObjectId {
    ObjectId::new(ObjectUuid(u(&b[..16])), ObjectCookie(u(&b[16..])))
}

fn sid(b: &[u8; 64]) -> ServiceId {
    ServiceId::new(
        ObjectId::new(ObjectUuid(u(&b[..16])), ObjectCookie(u(&b[16..32]))),
        ServiceUuid(u(&b[32..48])),
        ServiceCookie(u(&b[48..])),
    )
}

fn oid_b(o: ObjectId) -> [u8; 32] {
    let mut r = [0; 32];
    r[..16].copy_from_slice(o.uuid.0.as_bytes());
    r[16..].copy_from_slice(o.cookie.0.as_bytes());
    r
}

fn sid_b(s: ServiceId) -> [u8; 64] {
    let mut r = [0; 64];
    r[..32].copy_from_slice(&oid_b(s.object_id));
    r[32..48].copy_from_slice(s.uuid.0.as_bytes());
    r[48..].copy_from_slice(s.cookie.0.as_bytes());
    r
}

fn st(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).expect("model strings are UTF-8")
}

macro_rules! key {
    ($k:expr, $v:ident) => {
        match $k {
            K::$v(x) => x.clone(),
            _ => unreachable!(),
        }
    };
}

pub fn to_value(n: &N) -> Value {
    macro_rules! map {
        ($m:expr, $v:ident, $k:ident, $f:expr) => {
            Value::$v($m.iter().map(|(k, v)| ($f(key!(k, $k)), to_value(v))).collect::<HashMap<_, _>>())
        };
    }
    macro_rules! set {
        ($m:expr, $v:ident, $k:ident, $f:expr) => {
            Value::$v($m.iter().map(|k| $f(key!(k, $k))).collect::<HashSet<_>>())
        };
    }
    let id = |x| x;
    let _ = id(0);
    match n {
        N::None => Value::None,
        N::Some(x) => Value::Some(Box::new(to_value(x))),
        N::Bool(x) => Value::Bool(*x),
        N::U8(x) => Value::U8(*x),
        N::I8(x) => Value::I8(*x),
        N::U16(x) => Value::U16(*x),
        N::I16(x) => Value::I16(*x),
        N::U32(x) => Value::U32(*x),
        N::I32(x) => Value::I32(*x),
        N::U64(x) => Value::U64(*x),
        N::I64(x) => Value::I64(*x),
        N::F32(x) => Value::F32(f32::from_bits(*x)),
        N::F64(x) => Value::F64(f64::from_bits(*x)),
        N::Str(x) => Value::String(st(x)),
        N::Uuid(x) => Value::Uuid(u(x)),
        N::Oid(x) => Value::ObjectId(oid(x)),
        N::Sid(x) => Value::ServiceId(sid(x)),
        N::Vec(x) => Value::Vec(x.iter().map(to_value).collect()),
        N::Bytes(x) => Value::Bytes(Bytes(x.clone())),
        N::Map(0, m) => map!(m, U8Map, U8, |x: u8| x),
        N::Map(1, m) => map!(m, I8Map, I8, |x: i8| x),
        N::Map(2, m) => map!(m, U16Map, U16, |x: u16| x),
        N::Map(3, m) => map!(m, I16Map, I16, |x: i16| x),
        N::Map(4, m) => map!(m, U32Map, U32, |x: u32| x),
        N::Map(5, m) => map!(m, I32Map, I32, |x: i32| x),
        N::Map(6, m) => map!(m, U64Map, U64, |x: u64| x),
        N::Map(7, m) => map!(m, I64Map, I64, |x: i64| x),
        N::Map(8, m) => map!(m, StringMap, Str, |x: Vec<u8>| st(&x)),
        N::Map(_, m) => map!(m, UuidMap, Uuid, |x: [u8; 16]| u(&x)),
        N::Set(0, m) => set!(m, U8Set, U8, |x: u8| x),
        N::Set(1, m) => set!(m, I8Set, I8, |x: i8| x),
        N::Set(2, m) => set!(m, U16Set, U16, |x: u16| x),
        N::Set(3, m) => set!(m, I16Set, I16, |x: i16| x),
        N::Set(4, m) => set!(m, U32Set, U32, |x: u32| x),
        N::Set(5, m) => set!(m, I32Set, I32, |x: i32| x),
        N::Set(6, m) => set!(m, U64Set, U64, |x: u64| x),
        N::Set(7, m) => set!(m, I64Set, I64, |x: i64| x),
        N::Set(8, m) => set!(m, StringSet, Str, |x: Vec<u8>| st(&x)),
        N::Set(_, m) => set!(m, UuidSet, Uuid, |x: [u8; 16]| u(&x)),
        N::Struct(m) => Value::Struct(Struct(m.iter().map(|(k, v)| (*k, to_value(v))).collect())),
        N::Enum(id, x) => Value::Enum(Box::new(Enum::new(*id, to_value(x)))),
        N::Sender(x) => Value::Sender(ChannelCookie(u(x))),
        N::Receiver(x) => Value::Receiver(ChannelCookie(u(x))),
    }
}

pub fn from_value(v: &Value) -> N {
    macro_rules! map {
        ($i:expr, $m:expr, $f:expr) => {
            N::Map($i, $m.iter().map(|(k, v)| ($f(k), from_value(v))).collect())
        };
    }
    macro_rules! set {
        ($i:expr, $m:expr, $f:expr) => {
            N::Set($i, $m.iter().map($f).collect())
        };
    }
    match v {
        Value::None => N::None,
        Value::Some(x) => N::Some(Box::new(from_value(x))),
        Value::Bool(x) => N::Bool(*x),
        Value::U8(x) => N::U8(*x),
        Value::I8(x) => N::I8(*x),
        Value::U16(x) => N::U16(*x),
        Value::I16(x) => N::I16(*x),
        Value::U32(x) => N::U32(*x),
        Value::I32(x) => N::I32(*x),
        Value::U64(x) => N::U64(*x),
        Value::I64(x) => N::I64(*x),
        Value::F32(x) => N::F32(x.to_bits()),
        Value::F64(x) => N::F64(x.to_bits()),
        Value::String(x) => N::Str(x.clone().into_bytes()),
        Value::Uuid(x) => N::Uuid(*x.as_bytes()),
        Value::ObjectId(x) => N::Oid(oid_b(*x)),
        Value::ServiceId(x) => N::Sid(sid_b(*x)),
        Value::Vec(x) => N::Vec(x.iter().map(from_value).collect()),
        Value::Bytes(x) => N::Bytes(x.0.clone()),
        Value::U8Map(m) => map!(0, m, |k: &u8| K::U8(*k)),
        Value::I8Map(m) => map!(1, m, |k: &i8| K::I8(*k)),
        Value::U16Map(m) => map!(2, m, |k: &u16| K::U16(*k)),
        Value::I16Map(m) => map!(3, m, |k: &i16| K::I16(*k)),
        Value::U32Map(m) => map!(4, m, |k: &u32| K::U32(*k)),
        Value::I32Map(m) => map!(5, m, |k: &i32| K::I32(*k)),
        Value::U64Map(m) => map!(6, m, |k: &u64| K::U64(*k)),
        Value::I64Map(m) => map!(7, m, |k: &i64| K::I64(*k)),
        Value::StringMap(m) => map!(8, m, |k: &String| K::Str(k.clone().into_bytes())),
        Value::UuidMap(m) => map!(9, m, |k: &Uuid| K::Uuid(*k.as_bytes())),
        Value::U8Set(m) => set!(0, m, |k: &u8| K::U8(*k)),
        Value::I8Set(m) => set!(1, m, |k: &i8| K::I8(*k)),
        Value::U16Set(m) => set!(2, m, |k: &u16| K::U16(*k)),
        Value::I16Set(m) => set!(3, m, |k: &i16| K::I16(*k)),
        Value::U32Set(m) => set!(4, m, |k: &u32| K::U32(*k)),
        Value::I32Set(m) => set!(5, m, |k: &i32| K::I32(*k)),
        Value::U64Set(m) => set!(6, m, |k: &u64| K::U64(*k)),
        Value::I64Set(m) => set!(7, m, |k: &i64| K::I64(*k)),
        Value::StringSet(m) => set!(8, m, |k: &String| K::Str(k.clone().into_bytes())),
        Value::UuidSet(m) => set!(9, m, |k: &Uuid| K::Uuid(*k.as_bytes())),
        Value::Struct(m) => N::Struct(m.0.iter().map(|(k, v)| (*k, from_value(v))).collect()),
        Value::Enum(e) => N::Enum(e.id, Box::new(from_value(&e.value))),
        Value::Sender(x) => N::Sender(*x.0.as_bytes()),
        Value::Receiver(x) => N::Receiver(*x.0.as_bytes()),
    }
}

/// An arbitrary non-empty byte string as a `SerializedValue` (through a message frame).
pub fn raw_value(b: &[u8]) -> SerializedValue {
    assert!(!b.is_empty());
    let mut f = Vec::with_capacity(b.len() + 32);
    f.extend_from_slice(&((b.len() + 4 + 1 + 4 + 16) as u32).to_le_bytes());
    f.push(27); // SendItem
    f.extend_from_slice(&(b.len() as u32).to_le_bytes());
    f.extend_from_slice(b);
    f.extend_from_slice(&[0; 16]);
    match Message::deserialize_message(BytesMut::from(&f[..])).expect("send item") {
        Message::SendItem(m) => m.value,
        m => panic!("unexpected {m:?}"),
    }
}

// ------------------------------------------------------------ serialization through the low-level API

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SerMode {
    /// V1 serializers, element by element.
    V1,
    /// V1 `_iter` helpers.
    V1Iter,
    /// V2 serializers, element by element; bytes in several pieces.
    V2,
    /// V2 `_iter` helpers; structs and enums through their unknown-field and -variant forms.
    V2Iter,
    /// Pseudo-random choice per container.
    Mixed,
}

pub struct Low<'a>(pub &'a N, pub SerMode, pub &'a Cell<u64>);

fn flip(c: &Cell<u64>) -> u64 {
    let v = vp::mix(c.get().wrapping_add(0x1357));
    c.set(v);
    v
}

macro_rules! with_key {
    ($kk:expr, $m:ident) => {
        match $kk {
            0 => $m!(tags::U8, u8, U8, |x: &u8| *x),
            1 => $m!(tags::I8, i8, I8, |x: &i8| *x),
            2 => $m!(tags::U16, u16, U16, |x: &u16| *x),
            3 => $m!(tags::I16, i16, I16, |x: &i16| *x),
            4 => $m!(tags::U32, u32, U32, |x: &u32| *x),
            5 => $m!(tags::I32, i32, I32, |x: &i32| *x),
            6 => $m!(tags::U64, u64, U64, |x: &u64| *x),
            7 => $m!(tags::I64, i64, I64, |x: &i64| *x),
            8 => $m!(tags::String, String, Str, |x: &Vec<u8>| st(x)),
            _ => $m!(tags::Uuid, Uuid, Uuid, |x: &[u8; 16]| u(x)),
        }
    };
}

impl Serialize<tags::Value> for Low<'_> {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        let Low(n, mode, c) = self;
        let mode = match mode {
            SerMode::Mixed => match flip(c) % 4 {
                0 => SerMode::V1,
                1 => SerMode::V1Iter,
                2 => SerMode::V2Iter,
                _ => SerMode::V2,
            },
            m => m,
        };
        let outer = self.1;
        let sub = |n| Low(n, outer, c);
        match n {
            N::None => s.serialize_none(),
            N::Some(x) => s.serialize_some(sub(x)),
            N::Bool(x) => s.serialize_bool(*x),
            N::U8(x) => s.serialize_u8(*x),
            N::I8(x) => s.serialize_i8(*x),
            N::U16(x) => s.serialize_u16(*x),
            N::I16(x) => s.serialize_i16(*x),
            N::U32(x) => s.serialize_u32(*x),
            N::I32(x) => s.serialize_i32(*x),
            N::U64(x) => s.serialize_u64(*x),
            N::I64(x) => s.serialize_i64(*x),
            N::F32(x) => s.serialize_f32(f32::from_bits(*x)),
            N::F64(x) => s.serialize_f64(f64::from_bits(*x)),
            N::Str(x) => s.serialize_string(std::str::from_utf8(x).unwrap()),
            N::Uuid(x) => s.serialize_uuid(u(x)),
            N::Oid(x) => s.serialize_object_id(oid(x)),
            N::Sid(x) => s.serialize_service_id(sid(x)),
            N::Vec(xs) => match mode {
                SerMode::V1 => {
                    let mut v = s.serialize_vec1(xs.len())?;
                    for x in xs {
                        v.serialize(sub(x))?;
                    }
                    v.finish()
                }
                SerMode::V1Iter => s.serialize_vec1_iter(xs.iter().map(sub).collect::<Vec<_>>()),
                SerMode::V2Iter => s.serialize_vec2_iter(xs.iter().map(sub)),
                _ => {
                    let mut v = s.serialize_vec2()?;
                    for x in xs {
                        v.serialize(sub(x))?;
                    }
                    v.finish()
                }
            },
            N::Bytes(b) => match mode {
                SerMode::V1 => {
                    let mut v = s.serialize_bytes1(b.len())?;
                    let mid = b.len() / 3;
                    v.serialize(&b[..mid])?;
                    v.serialize(&b[mid..])?;
                    v.finish()
                }
                SerMode::V1Iter => s.serialize_byte_slice1(b),
                SerMode::V2Iter => s.serialize_byte_slice2(b),
                _ => {
                    let mut v = s.serialize_bytes2()?;
                    let mut rest = &b[..];
                    while !rest.is_empty() {
                        let k = 1 + (flip(c) as usize) % rest.len();
                        v.serialize(&rest[..k])?;
                        if flip(c) % 4 == 0 {
                            v.serialize(&[])?;
                        }
                        rest = &rest[k..];
                    }
                    v.finish()
                }
            },
            N::Map(kk, m) => {
                macro_rules! go {
                    ($tag:ty, $ty:ty, $var:ident, $f:expr) => {{
                        let it = m.iter().map(|(k, v)| {
                            let k: $ty = match k {
                                K::$var(x) => $f(x),
                                _ => unreachable!(),
                            };
                            (k, sub(v))
                        });
                        match mode {
                            SerMode::V1 => {
                                let mut ser = s.serialize_map1::<$tag>(m.len())?;
                                for (k, v) in it {
                                    ser.serialize::<tags::Value>(&k, v)?;
                                }
                                ser.finish()
                            }
                            SerMode::V1Iter => s.serialize_map1_iter::<$tag, $ty, tags::Value, _, _>(
                                it.collect::<Vec<_>>(),
                            ),
                            SerMode::V2Iter => s.serialize_map2_iter::<$tag, $ty, tags::Value, _, _>(it),
                            _ => {
                                let mut ser = s.serialize_map2::<$tag>()?;
                                for (k, v) in it {
                                    ser.serialize::<tags::Value>(&k, v)?;
                                }
                                ser.finish()
                            }
                        }
                    }};
                }
                with_key!(kk, go)
            }
            N::Set(kk, m) => {
                macro_rules! go {
                    ($tag:ty, $ty:ty, $var:ident, $f:expr) => {{
                        let it = m.iter().map(|k| {
                            let k: $ty = match k {
                                K::$var(x) => $f(x),
                                _ => unreachable!(),
                            };
                            k
                        });
                        match mode {
                            SerMode::V1 => {
                                let mut ser = s.serialize_set1::<$tag>(m.len())?;
                                for k in it {
                                    ser.serialize(&k)?;
                                }
                                ser.finish()
                            }
                            SerMode::V1Iter => {
                                s.serialize_set1_iter::<$tag, _>(it.collect::<Vec<$ty>>())
                            }
                            SerMode::V2Iter => s.serialize_set2_iter::<$tag, _>(it),
                            _ => {
                                let mut ser = s.serialize_set2::<$tag>()?;
                                for k in it {
                                    ser.serialize(&k)?;
                                }
                                ser.finish()
                            }
                        }
                    }};
                }
                with_key!(kk, go)
            }
            N::Struct(m) => match mode {
                SerMode::V1Iter => {
                    let (unknown, known) = split_fields(m, c);
                    let unknown: Vec<_> = unknown.into_iter().map(|(id, v)| (id, sub(v))).collect();
                    let mut ser = s.serialize_struct1_with_unknown_fields(known.len(), UnknownFieldsRef(unknown))?;
                    for (i, (id, v)) in known.iter().enumerate() {
                        if ser.remaining_fields() != known.len() - i || !ser.requires_additional_fields() {
                            complain(format!("{} fields remain instead of {}", ser.remaining_fields(), known.len() - i));
                        }
                        ser.serialize(*id, sub(v))?;
                    }
                    if ser.remaining_fields() != 0 || ser.requires_additional_fields() {
                        complain(format!("{} fields remain instead of none", ser.remaining_fields()));
                    }
                    ser.finish()
                }
                SerMode::V2Iter => {
                    let (unknown, known) = split_fields(m, c);
                    let unknown = UnknownFieldsRef(unknown.into_iter().map(|(id, v)| (id, sub(v))));
                    if flip(c) % 2 == 0 {
                        let mut ser = s.serialize_struct2_with_unknown_fields(unknown)?;
                        for (id, v) in known {
                            ser.serialize(id, sub(v))?;
                        }
                        ser.finish()
                    } else {
                        let mut ser = s.serialize_struct2()?;
                        for (id, v) in known {
                            ser.serialize(id, sub(v))?;
                        }
                        ser.serialize_unknown_fields(unknown)?;
                        ser.finish()
                    }
                }
                SerMode::V1 => {
                    let mut ser = s.serialize_struct1(m.len())?;
                    for (id, v) in m {
                        ser.serialize(*id, sub(v))?;
                    }
                    ser.finish()
                }
                _ => {
                    let mut ser = s.serialize_struct2()?;
                    for (id, v) in m {
                        ser.serialize(*id, sub(v))?;
                    }
                    ser.finish()
                }
            },
            N::Enum(id, x) => match (mode, &**x) {
                (SerMode::V2, N::None) => s.serialize_unit_enum(*id),
                (SerMode::V2Iter, x) => s.serialize_unknown_variant(UnknownVariantRef::new(*id, sub(x))),
                _ => s.serialize_enum(*id, sub(x)),
            },
            N::Sender(x) => s.serialize_sender(ChannelCookie(u(x))),
            N::Receiver(x) => s.serialize_receiver(ChannelCookie(u(x))),
        }
    }
}

type Fields<'a> = Vec<(u32, &'a N)>;

/// Some of the fields, and the others.
fn split_fields<'a>(m: &'a BTreeMap<u32, N>, c: &Cell<u64>) -> (Fields<'a>, Fields<'a>) {
    m.iter().map(|(id, v)| (*id, v)).partition(|_| flip(c) % 2 == 0)
}

pub fn low_serialize(n: &N, mode: SerMode, seed: u64) -> Result<SerializedValue, SerializeError> {
    let c = Cell::new(seed);
    SerializedValue::serialize_as::<tags::Value>(Low(n, mode, &c))
}

// ------------------------------------------------------------ decoding through the low-level API

thread_local! {
    /// Seed of `Walk`'s decisions (which sub-values to carry opaquely) and whether it may do so.
    pub static WALK: Cell<u64> = const { Cell::new(0) };
    pub static OPAQUE: Cell<bool> = const { Cell::new(false) };
    /// Disagreements noticed inside a walk.
    pub static COMPLAINTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn walk_bits() -> u64 {
    WALK.with(flip)
}

fn complain(s: String) {
    COMPLAINTS.with(|c| c.borrow_mut().push(s));
}

pub fn take_complaints() -> Vec<String> {
    COMPLAINTS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// Decoded without carrying anything opaquely (keeps the work linear per level).
fn plain(sv: &SerializedValueSlice) -> Result<Walk, DeserializeError> {
    OPAQUE.set(false);
    let r = sv.deserialize_as::<tags::Value, Walk>();
    OPAQUE.set(true);
    r
}

/// Decodes any value with the incremental deserializers; in opaque mode some sub-values are first
/// split off as `SerializedValue`s and decoded from there.
pub struct Walk(pub N);

/// An opaque value, re-decoded from its own bytes.
fn redecode(sv: &SerializedValueSlice) -> Result<N, DeserializeError> {
    sv.deserialize_as::<tags::Value, Walk>().map(|w| w.0)
}

impl Deserialize<tags::Value> for Walk {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let bits = walk_bits();
        if OPAQUE.get() && bits % 5 == 0 {
            let len = d.len()?;
            let sv: SerializedValue = if bits & 64 == 0 {
                SerializedValue::deserialize(d)?
            } else {
                d.split_off_serialized_value()?.to_owned()
            };
            if sv.len() != len {
                complain(format!("len() says {len}, split off {}", sv.len()));
            }
            return redecode(&sv).map(Walk);
        }
        walk(d).map(Walk)
    }
}

fn walk_key_map<Kt: KeyTag, Kx: DeserializeKey<Kt> + Clone>(
    d: Deserializer,
    kk: u8,
    f: impl Fn(Kx) -> K,
) -> Result<N, DeserializeError> {
    let mut m = BTreeMap::new();
    let mut d = d.deserialize_map::<Kt>()?;
    let style = walk_bits() % 3;
    loop {
        if style == 0 {
            match d.deserialize_element::<Kx, tags::Value, Walk>()? {
                Some((k, v)) => {
                    m.insert(f(k), v.0);
                }
                None => break,
            }
        } else {
            match d.deserialize::<Kx>()? {
                Some(e) => {
                    let k = f(e.key().clone());
                    let (_, v) = e.deserialize::<tags::Value, Walk>()?;
                    m.insert(k, v.0);
                }
                None => break,
            }
        }
    }
    if style == 2 {
        d.skip_and_finish(N::Map(kk, m))
    } else {
        d.finish(N::Map(kk, m))
    }
}

fn walk_set<Kt: KeyTag, Kx: DeserializeKey<Kt>>(
    d: Deserializer,
    kk: u8,
    f: impl Fn(Kx) -> K,
) -> Result<N, DeserializeError> {
    let mut m = BTreeSet::new();
    let mut d = d.deserialize_set::<Kt>()?;
    while let Some(k) = d.deserialize::<Kx>()? {
        m.insert(f(k));
    }
    if walk_bits() % 2 == 0 {
        d.skip_and_finish(N::Set(kk, m))
    } else {
        d.finish(N::Set(kk, m))
    }
}

fn walk(d: Deserializer) -> Result<N, DeserializeError> {
    macro_rules! map {
        ($tag:ty, $ty:ty, $kk:expr, $f:expr) => {
            walk_key_map::<$tag, $ty>(d, $kk, $f)
        };
    }
    macro_rules! set {
        ($tag:ty, $ty:ty, $kk:expr, $f:expr) => {
            walk_set::<$tag, $ty>(d, $kk, $f)
        };
    }
    let kind = d.peek_value_kind()?;
    match kind {
        ValueKind::None => d.deserialize_none().map(|()| N::None),
        ValueKind::Some => {
            if walk_bits() % 2 == 0 {
                d.deserialize_some::<tags::Value, Walk>().map(|w| N::Some(Box::new(w.0)))
            } else {
                d.deserialize_option::<tags::Value, Walk>().map(|w| N::Some(Box::new(w.unwrap().0)))
            }
        }
        ValueKind::Bool => d.deserialize_bool().map(N::Bool),
        ValueKind::U8 => d.deserialize_u8().map(N::U8),
        ValueKind::I8 => d.deserialize_i8().map(N::I8),
        ValueKind::U16 => d.deserialize_u16().map(N::U16),
        ValueKind::I16 => d.deserialize_i16().map(N::I16),
        ValueKind::U32 => d.deserialize_u32().map(N::U32),
        ValueKind::I32 => d.deserialize_i32().map(N::I32),
        ValueKind::U64 => d.deserialize_u64().map(N::U64),
        ValueKind::I64 => d.deserialize_i64().map(N::I64),
        ValueKind::F32 => d.deserialize_f32().map(|x| N::F32(x.to_bits())),
        ValueKind::F64 => d.deserialize_f64().map(|x| N::F64(x.to_bits())),
        ValueKind::String => d.deserialize_string().map(|x| N::Str(x.into_bytes())),
        ValueKind::Uuid => d.deserialize_uuid().map(|x| N::Uuid(*x.as_bytes())),
        ValueKind::ObjectId => d.deserialize_object_id().map(|x| N::Oid(oid_b(x))),
        ValueKind::ServiceId => d.deserialize_service_id().map(|x| N::Sid(sid_b(x))),
        ValueKind::Sender => d.deserialize_sender().map(|x| N::Sender(*x.0.as_bytes())),
        ValueKind::Receiver => d.deserialize_receiver().map(|x| N::Receiver(*x.0.as_bytes())),
        ValueKind::Vec1 | ValueKind::Vec2 => {
            let mut v = Vec::new();
            let mut d = d.deserialize_vec()?;
            let cut = walk_bits();
            while let Some(x) = d.deserialize::<tags::Value, Walk>()? {
                v.push(x.0);
                if cut % 8 == 0 && v.len() == 1 {
                    let mut rest: Vec<Walk> = Vec::new();
                    d.deserialize_extend(&mut rest)?;
                    v.extend(rest.into_iter().map(|x| x.0));
                    return Ok(N::Vec(v));
                }
            }
            d.finish(N::Vec(v))
        }
        ValueKind::Bytes1 | ValueKind::Bytes2 => {
            let mut v = Vec::new();
            let mut d = d.deserialize_bytes()?;
            loop {
                let s = d.as_slice()?;
                if s.is_empty() {
                    break;
                }
                let n = if walk_bits() % 2 == 0 { s.len() } else { 1 + walk_bits() as usize % s.len() };
                v.extend_from_slice(&s[..n]);
                d.advance(n)?;
                if walk_bits() % 16 == 0 {
                    d.deserialize_extend(&mut v)?;
                    return Ok(N::Bytes(v));
                }
            }
            d.finish(N::Bytes(v))
        }
        ValueKind::Struct1 | ValueKind::Struct2 => {
            let mut m = BTreeMap::new();
            let mut opaque = BTreeMap::new();
            let mut d = d.deserialize_struct()?;
            while let Some(f) = d.deserialize()? {
                let id = f.id();
                if OPAQUE.get() && walk_bits() % 3 == 0 {
                    f.add_to_unknown_fields()?;
                    m.insert(id, N::None);
                    opaque.insert(id, ());
                } else {
                    let v = f.deserialize::<tags::Value, Walk>()?;
                    m.insert(id, v.0);
                    opaque.remove(&id);
                }
            }
            d.finish_with(|unknown| {
                for (id, v) in unknown.iter() {
                    if opaque.contains_key(&id) {
                        m.insert(id, redecode(v)?);
                    }
                }
                if unknown.len() < opaque.len() {
                    complain(format!("{} unknown fields captured, expected {}", unknown.len(), opaque.len()));
                }
                // carried unknown fields re-serialize to a struct with the same fields
                if !unknown.is_empty() && opaque.len() == unknown.len() {
                    let again = SerializedValue::serialize_as::<tags::Value>(Carry(&unknown));
                    match again {
                        Ok(sv) => {
                            let back = plain(&sv)?;
                            let want: BTreeMap<u32, N> =
                                opaque.keys().map(|id| (*id, m[id].clone())).collect();
                            if back.0 != N::Struct(want) {
                                complain("unknown fields changed when re-serialized".into());
                            }
                        }
                        Err(e) => complain(format!("unknown fields do not re-serialize: {e:?}")),
                    }
                }
                Ok(N::Struct(m))
            })
        }
        ValueKind::Enum => {
            let d = d.deserialize_enum()?;
            let id = d.id();
            if OPAQUE.get() && walk_bits() % 2 == 0 {
                let var = d.into_unknown_variant()?;
                if UnknownVariant::id(&var) != id {
                    complain("unknown variant id".into());
                }
                let v = redecode(UnknownVariant::value(&var))?;
                let again = SerializedValue::serialize_as::<tags::Value>(CarryVar(&var));
                match again {
                    Ok(sv) => {
                        let back = plain(&sv)?;
                        if back.0 != N::Enum(id, Box::new(v.clone())) {
                            complain("unknown variant changed when re-serialized".into());
                        }
                    }
                    Err(e) => complain(format!("unknown variant does not re-serialize: {e:?}")),
                }
                Ok(N::Enum(id, Box::new(v)))
            } else {
                let v = d.deserialize::<tags::Value, Walk>()?;
                Ok(N::Enum(id, Box::new(v.0)))
            }
        }
        k => {
            let k: u8 = k.into();
            match k {
                19 | 45 => map!(tags::U8, u8, 0, K::U8),
                20 | 46 => map!(tags::I8, i8, 1, K::I8),
                21 | 47 => map!(tags::U16, u16, 2, K::U16),
                22 | 48 => map!(tags::I16, i16, 3, K::I16),
                23 | 49 => map!(tags::U32, u32, 4, K::U32),
                24 | 50 => map!(tags::I32, i32, 5, K::I32),
                25 | 51 => map!(tags::U64, u64, 6, K::U64),
                26 | 52 => map!(tags::I64, i64, 7, K::I64),
                27 | 53 => map!(tags::String, String, 8, |k: String| K::Str(k.into_bytes())),
                28 | 54 => map!(tags::Uuid, Uuid, 9, |k: Uuid| K::Uuid(*k.as_bytes())),
                29 | 55 => set!(tags::U8, u8, 0, K::U8),
                30 | 56 => set!(tags::I8, i8, 1, K::I8),
                31 | 57 => set!(tags::U16, u16, 2, K::U16),
                32 | 58 => set!(tags::I16, i16, 3, K::I16),
                33 | 59 => set!(tags::U32, u32, 4, K::U32),
                34 | 60 => set!(tags::I32, i32, 5, K::I32),
                35 | 61 => set!(tags::U64, u64, 6, K::U64),
                36 | 62 => set!(tags::I64, i64, 7, K::I64),
                37 | 63 => set!(tags::String, String, 8, |k: String| K::Str(k.into_bytes())),
                _ => set!(tags::Uuid, Uuid, 9, |k: Uuid| K::Uuid(*k.as_bytes())),
            }
        }
    }
}

struct Carry<'a>(&'a UnknownFields);

impl Serialize<tags::Value> for Carry<'_> {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        if walk_bits() % 2 == 0 {
            s.serialize_struct2_with_unknown_fields(self.0)?.finish()
        } else {
            s.serialize_struct1_with_unknown_fields(0, self.0)?.finish()
        }
    }
}

struct CarryVar<'a>(&'a UnknownVariant);

impl Serialize<tags::Value> for CarryVar<'_> {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        s.serialize_unknown_variant(self.0)
    }
}

// ------------------------------------------------------------ skipping

thread_local! {
    pub static PROBE: Cell<Option<Result<usize, DeserializeError>>> = const { Cell::new(None) };
    pub static KIND: Cell<Option<Result<u8, DeserializeError>>> = const { Cell::new(None) };
}

/// Measures with `len()`, then skips.
pub struct Skip;

impl Deserialize<tags::Value> for Skip {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        PROBE.set(Some(d.len()));
        KIND.set(Some(d.peek_value_kind().map(|k| k.into())));
        d.skip().map(|()| Self)
    }
}

/// Splits off; the split-off bytes are returned.
pub struct Split(pub Vec<u8>);

impl Deserialize<tags::Value> for Split {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        d.split_off_serialized_value().map(|s| Self(s.to_vec()))
    }
}

/// Skips with the containers' own `skip`/`skip_element` methods instead of `Deserializer::skip`.
pub struct SkipElems;

impl Deserialize<tags::Value> for SkipElems {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        macro_rules! map {
            ($tag:ty, $ty:ty) => {{
                let mut d = d.deserialize_map::<$tag>()?;
                if walk_bits() % 2 == 0 {
                    if let Some(e) = d.deserialize::<$ty>()? {
                        e.skip()?;
                    }
                }
                if walk_bits() % 2 == 0 {
                    d.skip()
                } else {
                    d.skip_and_finish(())
                }
            }};
        }
        macro_rules! set {
            ($tag:ty, $ty:ty) => {{
                let d = d.deserialize_set::<$tag>()?;
                if walk_bits() % 2 == 0 {
                    d.skip()
                } else {
                    d.skip_and_finish(())
                }
            }};
        }
        let k: u8 = d.peek_value_kind()?.into();
        match k {
            17 | 43 => {
                let d = d.deserialize_vec()?;
                if walk_bits() % 2 == 0 {
                    d.skip()
                } else {
                    d.skip_and_finish(())
                }
            }
            18 | 44 => {
                let d = d.deserialize_bytes()?;
                if walk_bits() % 2 == 0 {
                    d.skip()
                } else {
                    d.skip_and_finish(())
                }
            }
            39 | 65 => {
                let mut d = d.deserialize_struct()?;
                if walk_bits() % 2 == 0 {
                    if let Some(f) = d.deserialize()? {
                        f.skip()?;
                    }
                }
                if walk_bits() % 2 == 0 {
                    d.skip()
                } else {
                    d.skip_and_finish(())
                }
            }
            40 => d.deserialize_enum()?.skip(),
            19 | 45 => map!(tags::U8, u8),
            20 | 46 => map!(tags::I8, i8),
            21 | 47 => map!(tags::U16, u16),
            22 | 48 => map!(tags::I16, i16),
            23 | 49 => map!(tags::U32, u32),
            24 | 50 => map!(tags::I32, i32),
            25 | 51 => map!(tags::U64, u64),
            26 | 52 => map!(tags::I64, i64),
            28 | 54 => map!(tags::Uuid, Uuid),
            29 | 55 => set!(tags::U8, u8),
            30 | 56 => set!(tags::I8, i8),
            31 | 57 => set!(tags::U16, u16),
            32 | 58 => set!(tags::I16, i16),
            33 | 59 => set!(tags::U32, u32),
            34 | 60 => set!(tags::I32, i32),
            35 | 61 => set!(tags::U64, u64),
            36 | 62 => set!(tags::I64, i64),
            38 | 64 => set!(tags::Uuid, Uuid),
            // string maps and sets included: their keys would be UTF-8 checked when read one by one
            _ => d.skip(),
        }
        .map(|()| Self)
    }
}
