use crate::conv::*;
use aldrin_core::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use vp::wire::{self, N};
use vp::{ensure, fail, Ctx, Kind, Part, Property, Res, Src};

fn check_value(n: &N, seed: u64) -> Res {
    let depth = n.depth();
    let value = to_value(n);
    ensure!(from_value(&value) == *n, "harness", "model conversion is not the identity");

    // current encoding, by value and by reference
    let by_ref = SerializedValue::serialize(&value);
    let results: Vec<(&str, Result<SerializedValue, SerializeError>)> = vec![
        ("Value", by_ref),
        ("Value (owned)", SerializedValue::serialize(value)),
        ("V1", low_serialize(n, SerMode::V1, seed)),
        ("V1 iter", low_serialize(n, SerMode::V1Iter, seed)),
        ("V2", low_serialize(n, SerMode::V2, seed)),
        ("V2 iter", low_serialize(n, SerMode::V2Iter, seed)),
        ("mixed", low_serialize(n, SerMode::Mixed, seed)),
    ];
    if let Some(c) = take_complaints().first() {
        fail!("serializer", "{n:?}: {c}");
    }
    for (what, r) in results {
        match r {
            Ok(sv) => {
                ensure!(depth <= wire::MAX_DEPTH, "too-deep-serialized", "{what}: depth {depth} was serialized: {n:?}");
                let back = match sv.deserialize_as_value() {
                    Ok(b) => b,
                    Err(e) => fail!("decode-failed", "{what}: {n:?}\n-> {}\n-> {e:?}", vp::hex(&sv)),
                };
                let m = from_value(&back);
                ensure!(m == *n, "not-equal", "{what}: {n:?}\n-> {}\n-> {m:?}", vp::hex(&sv));
                // consuming exactly all bytes: a strict prefix must not decode, an extension must not either
                if sv.len() > 1 {
                    let cut = raw_value(&sv[..sv.len() - 1]);
                    ensure!(cut.deserialize_as_value().is_err(), "prefix-accepted", "{what}: {n:?} also decodes without its last byte {}", vp::hex(&sv));
                }
                let mut more = sv.to_vec();
                more.push(0);
                ensure!(
                    raw_value(&more).deserialize_as_value() == Err(DeserializeError::TrailingData),
                    "trailing",
                    "{what}: a trailing byte is not noticed: {n:?}"
                );
                // decoding with the incremental deserializers
                WALK.set(seed);
                OPAQUE.set(false);
                match sv.deserialize_as::<tags::Value, Walk>() {
                    Ok(w) => ensure!(w.0 == *n, "walk-not-equal", "{what}: {n:?}\n-> {}\n-> {:?}", vp::hex(&sv), w.0),
                    Err(e) => fail!("walk-failed", "{what}: {n:?}\n-> {}\n-> {e:?}", vp::hex(&sv)),
                }
            }
            Err(e) => {
                ensure!(depth > wire::MAX_DEPTH, "serialize-failed", "{what}: depth {depth} not serialized ({e:?}): {n:?}");
                ensure!(e == SerializeError::TooDeeplyNested, "wrong-error", "{what}: depth {depth}: {e:?}");
            }
        }
    }
    Ok(())
}

/// Deserialization of reference encodings in both epochs; nesting error beyond 32 levels.
fn check_encodings(src: &mut Src, n: &N, seed: u64) -> Res {
    let depth = n.depth();
    for epoch in [wire::Epoch::V1, wire::Epoch::V2, wire::Epoch::Mixed] {
        let b = wire::encode(src, n, epoch, false);
        let sv = raw_value(&b);
        WALK.set(seed);
        OPAQUE.set(false);
        let walk = sv.deserialize_as::<tags::Value, Walk>().map(|w| w.0);
        let val = sv.deserialize_as_value().map(|v| from_value(&v));
        for (what, r) in [("value", val), ("walk", walk)] {
            if depth > wire::MAX_DEPTH {
                ensure!(
                    r == Err(DeserializeError::TooDeeplyNested),
                    "too-deep-decoded",
                    "{what}, {epoch:?}: depth {depth} gives {r:?} for {}",
                    vp::hex(&b)
                );
            } else {
                ensure!(r.as_ref() == Ok(n), "legacy-decode", "{what}, {epoch:?}: {n:?}\n-> {}\n-> {r:?}", vp::hex(&b));
            }
        }
    }
    Ok(())
}

fn values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.below(1 << 20);
    let n = match src.us(4) {
        0 => wire::gen_leaf(src),
        _ => {
            let mut budget = 120;
            let d = src.range(1, 8);
            wire::gen_value(src, d, &mut budget)
        }
    };
    ctx.describe(|| format!("value {n:?}"));
    ctx.nontrivial = n.has_container() || n.size() > 1;
    ctx.count(KINDS[n.variant()]);
    check_value(&n, seed)?;
    check_encodings(src, &n, seed)
}

fn depths(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.below(1 << 20);
    let d = src.range(1, 40);
    let n = wire::gen_chain(src, d);
    ctx.describe(|| format!("depth {} chain {n:?}", n.depth()));
    ctx.nontrivial = n.depth() >= 3;
    ctx.count(match n.depth() {
        0..=30 => "depth <= 30",
        31 => "depth 31",
        32 => "depth 32",
        33 => "depth 33",
        _ => "depth > 33",
    });
    check_value(&n, seed)?;
    check_encodings(src, &n, seed)
}

/// Much deeper than 40 levels, on a 1 MiB stack: an error, not stack exhaustion.
fn very_deep(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.us(14);
    let depth = *src.pick(&[200usize, 400, 700]);
    let mut v = N::U8(1);
    for _ in 1..depth {
        v = match kind {
            0 => N::Some(Box::new(v)),
            1 => N::Vec(vec![v]),
            2 => N::Enum(7, Box::new(v)),
            3 => N::Struct([(7, v)].into()),
            k => N::Map((k - 4) as u8, [(wire::gen_key(&mut Src::replay(vec![]), (k - 4) as u8), v)].into()),
        };
    }
    ctx.nontrivial = true;
    ctx.describe(|| format!("kind {kind} nested {depth} times"));
    let val = to_value(&v);
    for (what, r) in [
        ("Value", SerializedValue::serialize(&val).map(|_| ())),
        ("V1", low_serialize(&v, SerMode::V1, 0).map(|_| ())),
        ("V1 iter", low_serialize(&v, SerMode::V1Iter, 0).map(|_| ())),
        ("V2", low_serialize(&v, SerMode::V2, 0).map(|_| ())),
        ("V2 iter", low_serialize(&v, SerMode::V2Iter, 0).map(|_| ())),
    ] {
        ensure!(r == Err(SerializeError::TooDeeplyNested), "very-deep-serialize", "{what} gives {r:?}");
    }
    // bytes: repeat the nesting step of each epoch 100_000 times
    for v2 in [false, true] {
        let step: Vec<u8> = match (kind, v2) {
            (0, _) => vec![1],
            (1, false) => vec![17, 1],
            (1, true) => vec![43, 1],
            (2, _) => vec![40, 7],
            (3, false) => vec![39, 1, 7],
            (3, true) => vec![65, 1, 7],
            (k, v2) => {
                let mut s = if v2 { vec![45 + (k - 4) as u8, 1] } else { vec![19 + (k - 4) as u8, 1] };
                match k - 4 {
                    9 => s.extend([0; 16]),
                    _ => s.push(0),
                }
                s
            }
        };
        let reps = 100_000;
        let mut b = Vec::with_capacity(step.len() * reps + 2);
        for _ in 0..reps {
            b.extend_from_slice(&step);
        }
        b.push(0);
        let sv = raw_value(&b);
        let r = sv.deserialize_as_value().map(|_| ());
        ensure!(r == Err(DeserializeError::TooDeeplyNested), "very-deep-decode", "v2={v2}: {r:?}");
        let r = sv.deserialize_as::<tags::Value, Skip>().map(|_| ());
        ensure!(r == Err(DeserializeError::TooDeeplyNested), "very-deep-skip", "v2={v2}: {r:?}");
    }
    Ok(())
}

/// Every integer of the small widths and all boundaries, in every position (exhaustive sweep).
fn int_sweep(src: &mut Src, ctx: &mut Ctx) -> Res {
    let block = src.below(1 << 20);
    ctx.nontrivial = true;
    ctx.describe(|| format!("16-bit block {block} (256 values) of U16/I16 as value and as key, 32/64-bit neighbours"));
    let mut vals: Vec<N> = Vec::new();
    for i in 0..256u64 {
        let x = block * 256 + i;
        vals.push(N::U16(x as u16));
        vals.push(N::I16(x as u16 as i16));
        if block == 0 {
            vals.push(N::U8(x as u8));
            vals.push(N::I8(x as u8 as i8));
        }
        // spread the 16-bit number over all magnitudes
        for sh in [0u32, 8, 13, 16] {
            vals.push(N::U32(((x << sh) as u32).wrapping_sub((i & 1) as u32)));
            vals.push(N::I32(((x << sh) as u32).wrapping_sub((i & 1) as u32) as i32));
        }
        for sh in [0u32, 16, 24, 32, 37, 40, 48] {
            vals.push(N::U64((x << sh).wrapping_sub(i & 1)));
            vals.push(N::I64((x << sh).wrapping_sub(i & 1) as i64));
        }
    }
    ctx.count_n("integers", vals.len() as u64);
    for v in &vals {
        let sv = SerializedValue::serialize(&to_value(v)).map_err(|e| vp::Fail::new("int", format!("{v:?} {e:?}")))?;
        let back = sv.deserialize_as_value().map(|x| from_value(&x));
        ensure!(back.as_ref() == Ok(v), "int", "{v:?} -> {} -> {back:?}", vp::hex(&sv));
    }
    // the same integers as keys and ids
    macro_rules! keys {
        ($i:expr, $var:ident) => {{
            let set: BTreeSet<wire::K> = vals.iter().filter_map(|v| match v { N::$var(x) => Some(wire::K::$var(*x)), _ => None }).collect();
            let map: BTreeMap<wire::K, N> = set.iter().map(|k| (k.clone(), N::Bool(true))).collect();
            for n in [N::Set($i, set), N::Map($i, map)] {
                for mode in [SerMode::V1, SerMode::V2] {
                    let sv = low_serialize(&n, mode, 0).map_err(|e| vp::Fail::new("int-key", format!("{e:?}")))?;
                    let back = sv.deserialize_as_value().map(|x| from_value(&x));
                    ensure!(back.as_ref() == Ok(&n), "int-key", "{mode:?} {n:?} -> {} -> {back:?}", vp::hex(&sv));
                }
            }
        }};
    }
    keys!(2, U16);
    keys!(3, I16);
    keys!(4, U32);
    keys!(5, I32);
    keys!(6, U64);
    keys!(7, I64);
    let st: BTreeMap<u32, N> = vals.iter().filter_map(|v| match v { N::U32(x) => Some((*x, N::None)), _ => None }).collect();
    let n = N::Struct(st.clone());
    for mode in [SerMode::V1, SerMode::V2] {
        let back = low_serialize(&n, mode, 0).unwrap().deserialize_as_value().map(|x| from_value(&x));
        ensure!(back.as_ref() == Ok(&n), "struct-id", "{mode:?}");
    }
    for id in st.keys().take(64) {
        let n = N::Enum(*id, Box::new(N::U8(1)));
        let back = low_serialize(&n, SerMode::V2, 0).unwrap().deserialize_as_value().map(|x| from_value(&x));
        ensure!(back.as_ref() == Ok(&n), "enum-id", "{id}");
    }
    Ok(())
}

/// Large containers around the 1/2/3-byte count boundaries.
fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = *src.pick(&[250usize, 251, 252, 253, 254, 255, 256, 257, 258, 507, 511, 512, 65534, 65535, 65536, 65537, 70000]);
    let what = src.us(6);
    let n = match what {
        0 => N::Vec(vec![N::None; len]),
        1 => N::Bytes(src.bulk(len)),
        2 => N::Str(vec![b'x'; len]),
        3 => N::Map(4, (0..len as u32).map(|i| (wire::K::U32(i.wrapping_mul(0x9e37_79b9)), N::U8(i as u8))).collect()),
        4 => N::Set(6, (0..len as u64).map(|i| wire::K::U64(vp::mix(i))).collect()),
        _ => N::Struct((0..len as u32).map(|i| (i.wrapping_mul(0x9e37_79b9), N::Bool(true))).collect()),
    };
    ctx.nontrivial = true;
    ctx.describe(|| format!("container {what} of length {len}"));
    for mode in [SerMode::V1, SerMode::V1Iter, SerMode::V2, SerMode::V2Iter] {
        let sv = low_serialize(&n, mode, 0).map_err(|e| vp::Fail::new("large", format!("{e:?}")))?;
        let back = sv.deserialize_as_value().map(|x| from_value(&x));
        ensure!(back.as_ref() == Ok(&n), "large", "{mode:?} container {what} of length {len}: {:?}", back.map(|b| b.size()));
    }
    let sv = SerializedValue::serialize(&to_value(&n)).map_err(|e| vp::Fail::new("large", format!("{e:?}")))?;
    let back = sv.deserialize_as_value().map(|x| from_value(&x));
    ensure!(back.as_ref() == Ok(&n), "large", "container {what} of length {len}");
    Ok(())
}

/// Statically typed values built on the same codec.
fn typed(src: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = true;
    macro_rules! rt {
        ($ty:ty, $v:expr) => {{
            let v: $ty = $v;
            ctx.describe(|| format!("{} = {v:?}", stringify!($ty)));
            let sv = match SerializedValue::serialize(&v) {
                Ok(sv) => sv,
                Err(e) => fail!("typed", "{}: {v:?}: {e:?}", stringify!($ty)),
            };
            let back: Result<$ty, _> = sv.deserialize();
            ensure!(back.as_ref() == Ok(&v), "typed", "{}: {v:?} -> {} -> {back:?}", stringify!($ty), vp::hex(&sv));
            let dy = sv.deserialize_as_value();
            ensure!(dy.is_ok(), "typed-dyn", "{}: {v:?} -> {} -> {dy:?}", stringify!($ty), vp::hex(&sv));
            let tree = match wire::decode_prefix(&sv, false) {
                Ok((t, l)) if l == sv.len() => t,
                e => fail!("typed-bytes", "{}: {v:?} -> {} is no value ({e:?})", stringify!($ty), vp::hex(&sv)),
            };
            for epoch in [wire::Epoch::V1, wire::Epoch::V2, wire::Epoch::Mixed] {
                let b = wire::encode(src, &tree, epoch, false);
                let back: Result<$ty, _> = crate::conv::raw_value(&b).deserialize();
                // Opaque values keep their own encoding.
                let opaque = stringify!($ty).contains("SerializedValue");
                ensure!(back.as_ref() == Ok(&v) || opaque && back.is_ok(), "typed-epoch", "{}: {v:?} as {} -> {back:?}", stringify!($ty), vp::hex(&b));
            }
        }};
    }
    let n = src.small(20);
    let strs = |s: &mut Src| String::from_utf8(wire::gen_string(s, 20)).unwrap();
    match src.us(20) {
        0 => rt!(Option<u32>, if src.bool() { Some(src.int(32) as u32) } else { None }),
        1 => rt!(Vec<u16>, (0..n).map(|_| src.int(16) as u16).collect()),
        2 => rt!(VecDeque<i32>, (0..n).map(|_| wire::sint(src, 32) as i32).collect()),
        3 => rt!(LinkedList<String>, (0..n).map(|_| strs(src)).collect()),
        4 => rt!(HashMap<u64, Vec<i8>>, (0..n).map(|_| (src.int(64), vec![src.byte() as i8])).collect()),
        5 => rt!(BTreeMap<String, Option<bool>>, (0..n).map(|_| (strs(src), Some(src.bool()))).collect()),
        6 => rt!(HashSet<i64>, (0..n).map(|_| wire::sint(src, 64)).collect()),
        7 => rt!(BTreeSet<i16>, (0..n).map(|_| wire::sint(src, 16) as i16).collect()),
        8 => rt!((u8, i64, String), (src.byte(), wire::sint(src, 64), strs(src))),
        9 => rt!([u32; 5], std::array::from_fn(|_| src.int(32) as u32)),
        10 => rt!(Result<u32, String>, if src.bool() { Ok(src.int(32) as u32) } else { Err(strs(src)) }),
        11 => rt!(Bytes, Bytes(src.bulk(n * 40))),
        12 => rt!(Box<Option<Box<u64>>>, Box::new(Some(Box::new(src.int(64))))),
        13 => rt!(Vec<Vec<Option<u8>>>, (0..n).map(|_| vec![Some(src.byte()), None]).collect()),
        14 => rt!((), ()),
        15 => rt!(BTreeMap<uuid::Uuid, (bool,)>, (0..n).map(|_| (uuid::Uuid::from_bytes(wire::gen_uuid(src)), (src.bool(),))).collect()),
        16 => rt!(Option<Option<u8>>, match src.us(3) { 0 => None, 1 => Some(None), _ => Some(Some(src.byte())) }),
        17 => rt!(HashMap<i8, HashMap<u8, HashSet<u32>>>, (0..n).map(|_| (src.byte() as i8, [(src.byte(), [src.int(32) as u32].into())].into())).collect()),
        18 => rt!([String; 0], []),
        _ => {
            // a serialized value inside another value
            let mut b = 20;
            let inner = wire::gen_value(src, 5, &mut b);
            let sv = low_serialize(&inner, SerMode::Mixed, 3).unwrap();
            rt!(Vec<SerializedValue>, vec![sv.clone(), sv.clone()]);
            rt!(BTreeMap<u8, SerializedValue>, [(src.byte(), sv)].into());
        }
    }
    Ok(())
}

pub const KINDS: [&str; 43] = [
    "None", "Some", "Bool", "U8", "I8", "U16", "I16", "U32", "I32", "U64", "I64", "F32", "F64", "String", "Uuid",
    "ObjectId", "ServiceId", "Vec", "Bytes", "U8Map", "I8Map", "U16Map", "I16Map", "U32Map", "I32Map", "U64Map",
    "I64Map", "StringMap", "UuidMap", "U8Set", "I8Set", "U16Set", "I16Set", "U32Set", "I32Set", "U64Set", "I64Set",
    "StringSet", "UuidSet", "Struct", "Enum", "Sender", "Receiver",
];

pub fn property() -> Property {
    Property {
        id: "C01",
        level: "exploration",
        rule: "Random Value trees over all 43 kinds (integers biased to varint/zigzag boundaries, NaN payloads, all map/set key kinds), nesting chains of depth 1..40 mixing all 14 nesting kinds, chains of 200..100000 levels, an exhaustive sweep of all 16-bit integers spread over every width as value, key and field id, large containers around count boundaries, typed values. Each is serialized by Value and by the V1, V1-iter, V2, V2-iter (including the unknown-field and -variant forms) and mixed low-level serializers and decoded by Value and by the incremental deserializers; reference encodings in both epochs are decoded as well. Non-trivial: has a container or a nested value (values), depth >= 3 (depths), every case of the other parts. Distinct by the list of random draws.",
        assumptions: &["the reference encoder vp::wire models the pinned wire format"],
        parts: vec![
            Part::new("depths", Kind::Random(120_000, 6_000_000), depths).secs(12, 500),
            Part::new("values", Kind::Random(150_000, 8_000_000), values).secs(16, 900),
            Part::new("int-sweep", Kind::Enumerate(|_| 256), int_sweep).secs(20, 200),
            Part::new("large", Kind::Random(240, 4_000), large).secs(12, 200),
            Part::new("typed", Kind::Random(40_000, 2_000_000), typed).secs(8, 200),
            Part::new("very-deep", Kind::Random(60, 600), very_deep).stack(1 << 20).secs(20, 100),
        ],
    }
}
