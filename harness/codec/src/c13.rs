use crate::bytesgen::{epoch, gen_bytes, gen_tree};
use crate::conv::*;
use crate::msgs;
use aldrin_core::message::MessageOps;
use aldrin_core::*;
use std::borrow::Cow;
use vp::wire::{self, decode_prefix, N};
use vp::{alloc, ensure, fail, Ctx, Kind, Part, Property, Res, Src};

const VERSIONS: [(u32, u32); 16] = [
    (1, 14),
    (1, 15),
    (1, 16),
    (1, 17),
    (1, 18),
    (1, 19),
    (1, 20),
    (1, 13),
    (1, 21),
    (1, 0),
    (0, 14),
    (0, 20),
    (2, 14),
    (2, 20),
    (1, u32::MAX),
    (2, 0),
];

/// 1 or 2, None if there is no such protocol version.
fn epoch_of(v: (u32, u32)) -> Option<u8> {
    match v {
        (1, 14..=19) => Some(1),
        (1, 20) => Some(2),
        _ => None,
    }
}

fn pv(v: (u32, u32)) -> ProtocolVersion {
    ProtocolVersion::new(v.0, v.1)
}

/// Compared with the model; `pairs` are the version pairs to try.
fn check(b: &[u8], pairs: &[(Option<(u32, u32)>, (u32, u32))], ctx: &mut Ctx) -> Res {
    let r = decode_prefix(b, false);
    let ok = matches!(&r, Ok((_, c)) if *c == b.len());
    let sv = raw_value(b);
    let mut first: Option<Vec<u8>> = None;
    for (from, to) in pairs {
        let ef = from.map_or(Some(2), epoch_of);
        let et = epoch_of(*to);
        let what = || format!("{from:?} -> {to:?} of {}", vp::hex(b));
        alloc::reset();
        let c = (*sv).convert(from.map(pv), pv(*to));
        let a = alloc::peak().0;
        // converting to counted containers needs no more than a few times the input
        ensure!(a <= 16 * b.len() + 4096, "alloc", "{}: {a} bytes held", what());
        let mut own = sv.clone();
        let c2 = own.convert(from.map(pv), pv(*to));
        ensure!(c2.is_ok() == c.is_ok(), "mut-differs", "{}: {c:?} by reference, {c2:?} in place", what());
        if c2.is_err() {
            ensure!(own[..] == *b, "mut-failed", "{}: failed, but the value is now {}", what(), vp::hex(&own));
        }
        let (Some(ef), Some(et)) = (ef, et) else {
            ensure!(c.is_err(), "version-accepted", "{}: {c:?}", what());
            ctx.count("invalid version");
            continue;
        };
        if et >= ef {
            match &c {
                Ok(v) => {
                    ensure!(v[..] == *b, "changed", "{}: changed to {}", what(), vp::hex(v));
                    ensure!(matches!(v, Cow::Borrowed(_)), "copied", "{}", what());
                }
                Err(e) => fail!("same-epoch-fails", "{}: {e:?}", what()),
            }
            ensure!(own[..] == *b, "changed-mut", "{}: changed to {}", what(), vp::hex(&own));
            ctx.count("unchanged");
            continue;
        }
        let v = match (c, ok) {
            (Ok(v), true) => v,
            (Err(e), true) => fail!("fails", "{}: well-formed ({r:?}) but {e:?}", what()),
            (Err(ValueConversionError::InvalidVersion), false) => fail!("wrong-error", "{}: invalid version", what()),
            (Err(_), false) => {
                ctx.count("ill-formed");
                continue;
            }
            (Ok(v), false) => fail!("ill-formed-accepted", "{}: ill-formed ({r:?}) but converted to {}", what(), vp::hex(&v)),
        };
        ensure!(own[..] == v[..], "mut-differs", "{}: {} by reference, {} in place", what(), vp::hex(&v), vp::hex(&own));
        let (n, _) = r.as_ref().unwrap();
        let mut d = wire::Dec::new(&v, false);
        let m = d.value(1);
        ensure!(m.as_ref() == Ok(n), "meaning", "{}\n value     {n:?}\n converted {m:?}\n = {}", what(), vp::hex(&v));
        ensure!(d.pos == v.len(), "trailing", "{}: converted to {}, of which {} bytes are a value", what(), vp::hex(&v), d.pos);
        ensure!(!d.saw_v2, "v2-left", "{}: converted to {}", what(), vp::hex(&v));
        ctx.count("converted");
        // the real decoder agrees
        let u = sv.deserialize_as_value().map(|x| from_value(&x));
        let w = v.deserialize_as_value().map(|x| from_value(&x));
        ensure!(u == w, "decode", "{}: decodes to {u:?} before, {w:?} after ({})", what(), vp::hex(&v));
        // twice is once, and every old version gets the same bytes
        let twice = v.convert(from.map(pv), pv(*to)).map(|x| x.to_vec());
        ensure!(twice.as_deref() == Ok(&v[..]), "twice", "{}: {} and again {twice:?}", what(), vp::hex(&v));
        let again = v.convert(Some(pv(*to)), pv(*to)).map(|x| x.to_vec());
        ensure!(again.as_deref() == Ok(&v[..]), "twice", "{}: {} and again {again:?}", what(), vp::hex(&v));
        match &first {
            Some(f) => ensure!(f[..] == v[..], "version-dependent", "{}: {} and {}", what(), vp::hex(&v), vp::hex(f)),
            None => first = Some(v.to_vec()),
        }
    }
    Ok(())
}

type Pair = (Option<(u32, u32)>, (u32, u32));

fn pairs(src: &mut Src) -> Vec<Pair> {
    let any = |s: &mut Src| VERSIONS[s.us(VERSIONS.len())];
    let mut p: Vec<Pair> = vec![(None, VERSIONS[src.us(6)]), (Some((1, 20)), VERSIONS[src.us(6)])];
    for _ in 0..2 {
        let f = any(src);
        let t = any(src);
        p.push((if src.chance(1, 3) { None } else { Some(f) }, t));
    }
    p
}

fn well_formed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_tree(src);
    let e = epoch(src);
    let sloppy = src.bool();
    let b = wire::encode(src, &n, e, sloppy);
    let p = pairs(src);
    ctx.describe(|| format!("{n:?} in {e:?} sloppy={sloppy}: {} for {p:?}", vp::hex(&b)));
    ctx.nontrivial = n.has_container();
    ctx.count(crate::c01::KINDS[n.variant()]);
    check(&b, &p, ctx)
}

fn bytes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, what) = gen_bytes(src);
    let p = pairs(src);
    ctx.describe(|| format!("{what}: {} for {p:?}", vp::hex(&b)));
    ctx.count(what);
    ctx.nontrivial = b.len() > 2 && b[0] <= 65;
    check(&b, &p, ctx)
}

/// Every pair of versions in and around 1.14..1.20 on one value (exhaustive in the pairs).
fn all_pairs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut p: Vec<Pair> = Vec::new();
    for t in VERSIONS {
        p.push((None, t));
        for f in VERSIONS {
            p.push((Some(f), t));
        }
    }
    let n = gen_tree(src);
    let e = epoch(src);
    let b = wire::encode(src, &n, e, false);
    ctx.nontrivial = n.has_container();
    ctx.describe(|| format!("{} pairs on {n:?} in {e:?}", p.len()));
    check(&b, &p, ctx)
}

/// Two-byte heads with tails, as for decoding (exhaustive).
fn heads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.below(65536) as usize;
    let (k, x) = ((i / 256) as u8, (i % 256) as u8);
    ctx.nontrivial = k <= 66;
    ctx.describe(|| format!("bytes starting {k} {x}"));
    let p: [Pair; 1] = [(None, (1, 14 + (i % 6) as u32))];
    let tails: [&[u8]; 8] = [
        &[],
        &[0],
        &[0, 0],
        &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        &[1, 0, 1, 0, 0],
        &[255; 20],
        &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0],
        &[2, 1, 3, 2, 13, 1, 0x80, 0, 0],
    ];
    for t in tails {
        let mut b = vec![k, x];
        b.extend_from_slice(t);
        check(&b, &p, ctx)?;
    }
    check(&[k], &p, ctx)
}

/// Every kind nested in every container kind, both epochs, and counts around boundaries.
fn combos(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.below(COMBOS) as usize;
    let (outer, count) = (i % 24, [0usize, 1, 2, 3, 251, 252, 253, 255, 256, 257, 300][i / 24]);
    let el = |j: usize| match j % 7 {
        0 => N::Vec(vec![N::Bytes(vec![1, 2, 3])]),
        1 => N::Struct([(j as u32, N::Set(3, [wire::K::I16(-5)].into()))].into()),
        2 => N::Map(8, [(wire::K::Str(vec![b'k'; j % 5]), N::Enum(j as u32, Box::new(N::Bytes(vec![]))))].into()),
        3 => N::Some(Box::new(N::Map(5, [(wire::K::I32(-1), N::None)].into()))),
        4 => N::Set(7, [wire::K::I64(i64::MIN), wire::K::I64(1 << 40)].into()),
        5 => N::F32(0x7fc0_0001),
        _ => N::Sid([7; 64]),
    };
    let key = |kk: u8, j: usize| match kk {
        0 => wire::K::U8(j as u8),
        1 => wire::K::I8(j as u8 as i8),
        2 => wire::K::U16(j as u16 * 211),
        3 => wire::K::I16((j as u16 * 211) as i16),
        4 => wire::K::U32(j as u32 * 14_000_000),
        5 => wire::K::I32((j as u32).wrapping_mul(14_000_000) as i32),
        6 => wire::K::U64((j as u64).wrapping_mul(1 << 56) | j as u64),
        7 => wire::K::I64((j as u64).wrapping_mul(1 << 56) as i64 ^ j as i64),
        8 => wire::K::Str(format!("{j}").into_bytes()),
        _ => wire::K::Uuid((j as u128).to_le_bytes()),
    };
    let n = match outer {
        0 => N::Vec((0..count).map(el).collect()),
        1 => N::Bytes((0..count).map(|j| j as u8).collect()),
        2 => N::Struct((0..count).map(|j| (j as u32 * 14_000_000, el(j))).collect()),
        3 => N::Enum(count as u32, Box::new(el(count))),
        k @ 4..=13 => N::Map(k as u8 - 4, (0..count).map(|j| (key(k as u8 - 4, j), el(j))).collect()),
        k => N::Set(k as u8 - 14, (0..count).map(|j| key(k as u8 - 14, j)).collect()),
    };
    ctx.nontrivial = count > 0;
    ctx.describe(|| format!("container {outer} with {count} elements"));
    for e in [wire::Epoch::V1, wire::Epoch::V2, wire::Epoch::Mixed] {
        for sloppy in [false, true] {
            let mut s = Src::random(i as u64);
            let b = wire::encode(&mut s, &n, e, sloppy);
            check(&b, &[(None, (1, 19)), (Some((1, 20)), (1, 14)), (Some((1, 19)), (1, 14)), (Some((1, 14)), (1, 20))], ctx)?;
        }
    }
    Ok(())
}

const COMBOS: u64 = 24 * 11;

/// Values inside messages: the value is converted, everything else stays.
fn messages(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.us(63);
    let mut f = msgs::gen_frame_of(src, kind);
    let malformed = src.chance(1, 5);
    let n = gen_tree(src);
    let e = epoch(src);
    let b = if malformed { gen_bytes(src).0 } else { wire::encode(src, &n, e, false) };
    if f.value.is_some() && !f.value_ignored() {
        f.value = Some(b.clone());
    }
    let has = f.value.is_some() && !f.value_ignored();
    let p = pairs(src);
    ctx.nontrivial = has && n.has_container();
    ctx.describe(|| format!("{f:?} for {p:?}"));
    for (from, to) in p {
        let mut m = msgs::build(&f);
        let r = m.convert_value(from.map(pv), pv(to));
        if !has {
            // nothing to convert; whether versions are looked at is left open
            ensure!(m == msgs::build(&f), "no-value-changed", "{f:?} -> {m:?}");
            continue;
        }
        let rv = raw_value(&b);
        let want = (*rv).convert(from.map(pv), pv(to)).map(|v| v.to_vec());
        ensure!(r.is_ok() == want.is_ok(), "message", "{f:?}: {r:?} in the message, {want:?} alone");
        let mut g = f.clone();
        if let Ok(w) = want {
            g.value = Some(w);
        }
        ensure!(m == msgs::build(&g), "message-changed", "{f:?} for {from:?} -> {to:?} becomes {m:?}");
        let bytes = m.serialize_message().map_err(|e| vp::Fail::new("message-serialize", format!("{e:?}")))?;
        ensure!(bytes[..] == msgs::encode(&g)[..], "message-layout", "{f:?} -> {}", vp::hex(&bytes));
        ctx.count("messages with a value");
    }
    check(&b, &[(None, (1, 14))], ctx)
}

pub fn property() -> Property {
    Property {
        id: "C13",
        level: "exploration",
        rule: "Reference encodings (V1, V2, mixed; canonical and sloppy) of random value trees and nesting chains, every container kind with 0..300 elements of mixed nested containers, mutated/truncated/bomb/noise byte strings, all two-byte heads, and values inside messages of all 63 kinds, converted between version pairs in and around 1.14..1.20 (all 16x17 pairs in one part). The result is decoded by the independent reference decoder and compared with the original value; presence of 1.20-only encodings, idempotence, borrowed identity and error conditions are checked. Non-trivial: the value has a container; more than 2 bytes with a known kind (bytes).",
        assumptions: &[
            "the reference codec vp::wire models the pinned wire format",
            "ill-formed values and unknown versions are expected to be errors, reading 'fails only for' as 'fails exactly for'",
        ],
        parts: vec![
            Part::new("combos", Kind::Enumerate(|_| COMBOS), combos).secs(20, 100),
            Part::new("heads", Kind::Enumerate(|_| 65536), heads).secs(20, 300),
            Part::new("pairs", Kind::Random(3_000, 300_000), all_pairs).secs(10, 500),
            Part::new("well-formed", Kind::Random(500_000, 40_000_000), well_formed).secs(15, 1200),
            Part::new("bytes", Kind::Random(800_000, 60_000_000), bytes).secs(12, 1200),
            Part::new("messages", Kind::Random(200_000, 20_000_000), messages).secs(10, 600),
        ],
    }
}
