use crate::bytesgen::{epoch, gen_bytes, gen_tree};
use crate::conv::*;
use crate::pick;
use aldrin_core::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use vp::wire::{self, decode_prefix, Bad, N};
use vp::{alloc, ensure, fail, Ctx, Kind, Part, Property, Res, Src};

/// Allowed live heap while decoding `len` bytes.
fn bound(len: usize) -> usize {
    600 * len + 4096
}

struct FieldsOnly(usize);

impl Deserialize<tags::Value> for FieldsOnly {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let mut d = d.deserialize_struct()?;
        let mut n = 0;
        while let Some(f) = d.deserialize()? {
            f.add_to_unknown_fields()?;
            n += 1;
        }
        d.finish_with(|u| {
            if u.len() > n {
                return Err(DeserializeError::InvalidSerialization);
            }
            Ok(Self(u.len()))
        })
    }
}

pub fn check_bytes(b: &[u8], seed: u64, ctx: &mut Ctx) -> Res {
    let len = b.len();
    let r_u = decode_prefix(b, true);
    let r_n = decode_prefix(b, false);
    ensure!(r_u.is_err() || r_n == r_u, "harness", "reference decoders disagree");
    let sv = raw_value(b);
    let hx = || vp::hex(b);
    ctx.count(match (&r_u, &r_n) {
        (Ok((_, c)), _) if *c == len => "decodes",
        (Ok(_), _) => "decodes, trailing bytes",
        (Err(_), Ok(_)) => "only UTF-8 invalid",
        (Err(Bad::Eoi), _) => "cut short",
        (Err(Bad::TooDeep), _) => "too deep",
        (Err(Bad::Kind), _) => "bad kind",
        (Err(Bad::Marker), _) => "bad marker",
        (Err(Bad::Utf8), _) => "bad UTF-8",
    });

    // --- kind
    alloc::reset();
    let k = sv.kind();
    let a = alloc::peak().0;
    ensure!(a <= 4 * len + 4096, "alloc-kind", "kind() allocates {a} bytes: {}", hx());
    match k {
        Ok(k) => ensure!(b[0] <= 65 && u8::from(k) == b[0], "kind", "kind {k:?} for {}", hx()),
        Err(e) => ensure!(b[0] > 65 && e == DeserializeError::InvalidSerialization, "kind", "{e:?} for {}", hx()),
    }

    // --- full decoding
    alloc::reset();
    let val = sv.deserialize_as_value();
    let a = alloc::peak().0;
    ensure!(a <= bound(len), "alloc-decode", "decoding {len} bytes holds {a} bytes: {}", hx());
    match (&val, &r_u) {
        (Ok(v), Ok((n, c))) => {
            ensure!(*c == len, "trailing-accepted", "value of {c} bytes decoded from {len}: {}", hx());
            let m = from_value(v);
            ensure!(m == *n, "decode-differs", "{}\n reference {n:?}\n decoded   {m:?}", hx());
        }
        (Err(e), Ok((n, c))) => {
            ensure!(*c < len, "decode-rejects", "{} is {n:?} but decoding says {e:?}", hx());
            ensure!(*e == DeserializeError::TrailingData, "trailing-error", "{}: {e:?} instead of trailing data", hx());
            let cut = raw_value(&b[..*c]);
            let v = cut.deserialize_as_value().map(|v| from_value(&v));
            ensure!(v.as_ref() == Ok(n), "decode-prefix", "{} is {n:?} but decoding says {v:?}", vp::hex(&b[..*c]));
        }
        (Ok(v), Err(e)) => fail!("decode-accepts", "{} is ill-formed ({e:?}) but decodes to {v:?}", hx()),
        (Err(_), Err(_)) => {}
    }

    // --- measuring and skipping
    PROBE.set(None);
    KIND.set(None);
    alloc::reset();
    let sk = sv.deserialize_as::<tags::Value, Skip>().map(|_| ());
    let a = alloc::peak().0;
    ensure!(a <= 4 * len + 4096, "alloc-skip", "skipping {len} bytes holds {a} bytes: {}", hx());
    let probe = PROBE.get().expect("len() was called");
    let kind = KIND.get().expect("kind was peeked");
    match kind {
        Ok(k) => ensure!(b[0] <= 65 && k == b[0], "peek-kind", "{k} for {}", hx()),
        Err(e) => ensure!(b[0] > 65, "peek-kind", "{e:?} for {}", hx()),
    }
    match (&probe, &r_n) {
        (Ok(l), Ok((_, c))) => ensure!(l == c, "len-differs", "{}: {c} bytes, len() says {l}", hx()),
        (Ok(l), Err(e)) => fail!("len-accepts", "{}: ill-formed ({e:?}), len() says {l}", hx()),
        (Err(e), Ok((n, c))) => fail!("len-rejects", "{}: {n:?} in {c} bytes, len() says {e:?}", hx()),
        (Err(_), Err(_)) => {}
    }
    match (&sk, &r_n) {
        (Ok(()), Ok((_, c))) => ensure!(*c == len, "skip-length", "{}: skipped {len} of {c} bytes", hx()),
        (Ok(()), Err(e)) => fail!("skip-accepts", "{}: ill-formed ({e:?}) but skipped", hx()),
        (Err(e), Ok((n, c))) => ensure!(
            *c < len && *e == DeserializeError::TrailingData,
            "skip-rejects",
            "{}: {n:?} in {c} of {len} bytes, skipping says {e:?}",
            hx()
        ),
        (Err(_), Err(_)) => {}
    }
    WALK.set(seed);
    let se = sv.deserialize_as::<tags::Value, SkipElems>().map(|_| ());
    // element-wise skipping may validate the UTF-8 of keys it reads, nothing else
    match (&se, &r_n) {
        (Ok(()), r) => ensure!(matches!(r, Ok((_, c)) if *c == len), "skip-elems-accepts", "{}: {r:?} but skipped", hx()),
        (Err(e), Ok((n, c))) => ensure!(*c < len, "skip-elems-rejects", "{}: {n:?} but {e:?}", hx()),
        _ => {}
    }

    // --- splitting off
    alloc::reset();
    let sp = sv.deserialize_as::<tags::Value, Split>().map(|s| s.0);
    let ow = sv.deserialize_as::<tags::Value, SerializedValue>();
    let a = alloc::peak().0;
    ensure!(a <= 4 * len + 4096, "alloc-split", "splitting {len} bytes holds {a} bytes: {}", hx());
    let full = matches!(&r_n, Ok((_, c)) if *c == len);
    ensure!(sp.is_ok() == full, "split", "{}: reference {r_n:?}, split {:?}", hx(), sp.is_ok());
    ensure!(ow.is_ok() == full, "split-owned", "{}: reference {r_n:?}, split {:?}", hx(), ow.is_ok());
    if full {
        ensure!(sp.as_deref() == Ok(b), "split-bytes", "{}: split off {:?}", hx(), sp);
        ensure!(&ow.as_ref().unwrap()[..] == b, "split-owned-bytes", "{}: split off {:?}", hx(), ow);
    }

    // --- incremental decoding, plain and with opaque sub-values
    for opaque in [false, true] {
        WALK.set(seed);
        OPAQUE.set(opaque);
        let _ = take_complaints();
        let w = sv.deserialize_as::<tags::Value, Walk>().map(|w| w.0);
        OPAQUE.set(false);
        let complaints = take_complaints();
        match (&w, &r_u) {
            (Ok(m), Ok((n, c))) => {
                ensure!(*c == len, "walk-trailing", "{}: {c} of {len} bytes walked", hx());
                ensure!(m == n, "walk-differs", "opaque={opaque} {}\n reference {n:?}\n decoded   {m:?}", hx());
            }
            (Ok(m), Err(e)) => fail!("walk-accepts", "opaque={opaque} {} is ill-formed ({e:?}) but walks to {m:?}", hx()),
            (Err(e), Ok((n, c))) => {
                ensure!(*c < len, "walk-rejects", "opaque={opaque} {} is {n:?} but walking says {e:?}", hx())
            }
            _ => {}
        }
        if w.is_ok() {
            ensure!(complaints.is_empty(), "opaque-carry", "{}: {complaints:?}", hx());
        }
    }

    // --- carried in an unknown field of a generated struct
    if let Ok((_, c)) = &r_n {
        let body = &b[..*c];
        // shallow enough including values a duplicate key overrides
        let mut shallow = wire::Dec::new(body, false);
        shallow.max_depth = wire::MAX_DEPTH - 1;
        if shallow.value(1).is_ok() {
            for v2 in [false, true] {
                let mut w = if v2 { vec![65, 1, 7] } else { vec![39, 2, 7] };
                w.extend_from_slice(body);
                w.extend_from_slice(if v2 { &[1, 8, 0, 0] } else { &[8, 0] });
                let r = raw_value(&w).deserialize_as::<tags::Value, FieldsOnly>().map(|f| f.0);
                ensure!(r == Ok(2), "unknown-field", "{}: as unknown field gives {r:?}", hx());
            }
        }
    }
    Ok(())
}

/// Statically typed targets: no panic, no large allocation, and Ok only if the bytes are a value.
fn typed_targets(b: &[u8], ctx: &mut Ctx) -> Res {
    let sv = raw_value(b);
    let r_n = decode_prefix(b, false);
    let ok = matches!(&r_n, Ok((_, c)) if *c == b.len());
    let mut hits = 0u64;
    macro_rules! t {
        ($($ty:ty),* $(,)?) => {$({
            alloc::reset();
            let r = sv.deserialize::<$ty>();
            let a = alloc::peak().0;
            ensure!(a <= bound(b.len()), "alloc-typed", "{}: {} bytes input, {a} bytes held: {}", stringify!($ty), b.len(), vp::hex(b));
            if let Ok(v) = r {
                ensure!(ok, "typed-accepts", "{}: {} decodes to {v:?} but is no value", stringify!($ty), vp::hex(b));
                hits += 1;
            }
        })*};
    }
    t!(
        bool, u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, String, uuid::Uuid, ObjectId, ServiceId,
        Vec<Vec<u32>>, VecDeque<SerializedValue>, LinkedList<String>, Vec<()>, Bytes, Option<SerializedValue>, Option<Option<u16>>,
        HashMap<u8, u8>, HashMap<String, SerializedValue>, BTreeMap<u64, Vec<u8>>, BTreeMap<i32, ()>,
        HashSet<u16>, HashSet<String>, BTreeSet<uuid::Uuid>, BTreeSet<i64>, HashSet<i8>,
        (u8, SerializedValue), (SerializedValue,), (u32, u32, u32), [u8; 4], [SerializedValue; 2], [(); 3], Result<SerializedValue, u32>,
        Result<(), String>, Box<SerializedValue>, (), SerializedValue, ChannelCookie, ServiceInfo,
    );
    ctx.count_n("typed decodes that succeed", hits);
    Ok(())
}

fn bytes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.below(1 << 20);
    let (b, what) = gen_bytes(src);
    ctx.describe(|| format!("{what}: {}", vp::hex(&b)));
    ctx.count(what);
    ctx.nontrivial = b.len() > 1 && b[0] <= 65;
    check_bytes(&b, seed, ctx)?;
    if seed % 4 == 0 {
        typed_targets(&b, ctx)?;
    }
    Ok(())
}

/// Every truncation and every single-byte change of a (short) valid encoding.
fn neighbours(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.below(1 << 20);
    let mut budget = 8;
    let d = src.range(1, 4);
    let n = wire::gen_value(src, d, &mut budget);
    let e = crate::bytesgen::epoch(src);
    let mut b = wire::encode(src, &n, e, false);
    if b.len() > 48 {
        ctx.count("too long");
        b.truncate(48);
    }
    ctx.describe(|| format!("all truncations and single-byte changes of {n:?} = {}", vp::hex(&b)));
    ctx.nontrivial = b.len() >= 4;
    for cut in 1..=b.len() {
        check_bytes(&b[..cut], seed, ctx)?;
    }
    for i in 0..b.len() {
        let old = b[i];
        let all = i < 3;
        let mut cand: Vec<u8> = if all {
            (0..=255).collect()
        } else {
            vec![0, 1, 2, 17, 43, 44, 65, 66, 127, 128, 192, 248, 250, 251, 252, 253, 254, 255, old ^ 1, old.wrapping_add(1), old.wrapping_sub(1)]
        };
        cand.dedup();
        for x in cand {
            if x != old {
                b[i] = x;
                check_bytes(&b, seed, ctx)?;
            }
        }
        b[i] = old;
    }
    Ok(())
}

/// Two-byte heads: every kind byte with every second byte, followed by a few tails (exhaustive).
fn heads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.below(65536) as usize;
    let (k, x) = ((i / 256) as u8, (i % 256) as u8);
    ctx.nontrivial = k <= 66;
    ctx.describe(|| format!("bytes starting {k} {x}"));
    let tails: [&[u8]; 7] = [
        &[],
        &[0],
        &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        &[1, 0, 1, 0, 0],
        &[255; 20],
        &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0],
        &[2, 1, 3, 2, 13, 1, 0x80, 0, 0],
    ];
    for t in tails {
        let mut b = vec![k, x];
        b.extend_from_slice(t);
        check_bytes(&b, i as u64, ctx)?;
    }
    typed_targets(&[k, x, 0, 0, 0], ctx)?;
    check_bytes(&[k], i as u64, ctx)
}

/// Encodings produced by the real serializers, and large inputs.
fn serialized(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.below(1 << 20);
    let mode = *src.pick(&[SerMode::V1, SerMode::V1Iter, SerMode::V2, SerMode::V2Iter, SerMode::Mixed]);
    let n = if src.chance(1, 8) {
        let len = src.range(1, 3000);
        match src.us(5) {
            0 => N::Vec((0..len).map(|i| if i % 2 == 0 { N::None } else { N::Vec(vec![]) }).collect()),
            1 => N::Map(0, (0..=255u8).map(|i| (wire::K::U8(i), N::Map(1, [].into()))).collect()),
            2 => N::Bytes(src.bulk(len)),
            3 => N::Str(vec![b'x'; len]),
            _ => N::Vec((0..len).map(|_| N::Set(0, [wire::K::U8(1)].into())).collect()),
        }
    } else {
        gen_tree(src)
    };
    ctx.describe(|| format!("{mode:?} {n:?}"));
    ctx.nontrivial = n.has_container();
    match low_serialize(&n, mode, seed) {
        Ok(sv) => {
            ensure!(decode_prefix(&sv, true) == Ok((n.clone(), sv.len())), "serialized-form", "{n:?} serialized as {}", vp::hex(&sv));
            check_bytes(&sv, seed, ctx)
        }
        Err(_) => Ok(()),
    }
}

/// Walks that choose among all methods of the low-level deserializers.
fn walkers(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.below(1 << 30);
    let guided = src.chance(2, 3);
    let (b, n) = if guided {
        let n = gen_tree(src);
        let e = epoch(src);
        (wire::encode(src, &n, e, false), Some(n))
    } else {
        (gen_bytes(src).0, None)
    };
    ctx.describe(|| format!("walk {seed} of {} {}", vp::hex(&b), if guided { "(well-formed)" } else { "" }));
    ctx.nontrivial = b.len() >= 3 && b[0] <= 65;
    let sv = raw_value(&b);
    let r_u = decode_prefix(&b, true);
    let r_n = decode_prefix(&b, false);
    for i in 0..3u64 {
        let misuse = i == 2;
        let o = pick::run(&sv, n.as_ref(), seed + i, misuse);
        for (k, c) in &o.steps {
            ctx.count_n(k, *c);
        }
        if let Some(w) = o.wrong.first() {
            fail!("walker-wrong", "{} walk {}: {w}", vp::hex(&b), seed + i);
        }
        match (&o.result, &o.doom) {
            (Ok(()), Some(d)) if guided => fail!("walker-misuse", "{} walk {}: {d}, but all is well", vp::hex(&b), seed + i),
            (_, Some(_)) => continue,
            _ => {}
        }
        match (&o.result, &r_u, &r_n) {
            // what decodes, can be walked, and nothing is left over
            (Err(e), Ok((_, c)), _) if *c == b.len() => fail!("walker-rejects", "{} walk {}: {e:?}", vp::hex(&b), seed + i),
            (Ok(()), _, Ok((_, c))) => ensure!(*c == b.len(), "walker-length", "{} walk {}: takes all of {} instead of {c} bytes", vp::hex(&b), seed + i, b.len()),
            (Ok(()), _, Err(e)) => fail!("walker-accepts", "{} walk {}: ill-formed ({e:?})", vp::hex(&b), seed + i),
            _ => {}
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C07",
        level: "exploration",
        rule: "Byte strings: reference encodings of random value trees in V1, V2 and mixed epochs (canonical and sloppy: overlong varints, odd bool bytes, chunked bytes, duplicate keys), their mutations and truncations, strings with broken UTF-8, huge counts and lengths, nesting of 28..300 levels, noise; all truncations and single-byte changes of short encodings; all two-byte heads; encodings made by the real serializers. Each is decoded, measured, skipped (three ways), split off, walked with the incremental deserializers with and without carrying sub-values opaquely, and embedded as an unknown field; \"walkers\" walk them by randomly chosen methods of every low-level deserializer (generic and versioned, element by element, in bulk, skipping, carrying, finishing early, deliberate misuse), guided by the value encoded; every result is compared with the independent reference decoder, and live heap is bounded by 600 bytes per input byte + 4 KiB while decoding and 64 bytes while skipping. Non-trivial: at least two bytes and a known kind byte (bytes); three (walkers); at least 4 bytes (neighbours); kind byte <= 66 (heads); has a container (serialized).",
        assumptions: &["the reference decoder vp::wire models the pinned wire format", "64-bit platform"],
        parts: vec![
            Part::new("heads", Kind::Enumerate(|_| 65536), heads).secs(20, 300),
            Part::new("bytes", Kind::Random(1_500_000, 100_000_000), bytes).secs(20, 1500),
            Part::new("neighbours", Kind::Random(10_000, 1_000_000), neighbours).secs(15, 900),
            Part::new("walkers", Kind::Random(800_000, 60_000_000), walkers).secs(12, 600),
            Part::new("serialized", Kind::Random(300_000, 20_000_000), serialized).secs(10, 500),
        ],
    }
}
