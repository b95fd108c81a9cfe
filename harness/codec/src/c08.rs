use crate::msgs::{self, Frame};
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::*;
use bytes::BytesMut;
use vp::{alloc, ensure, fail, wire, Ctx, Kind, Part, Property, Res, Src};

fn buf(src: &mut Src, b: &[u8]) -> BytesMut {
    // as an own buffer, with spare capacity, or as part of a larger shared one
    match src.us(3) {
        0 => BytesMut::from(b),
        1 => {
            let mut x = BytesMut::with_capacity(b.len() + 100);
            x.extend_from_slice(b);
            x
        }
        _ => {
            let mut x = BytesMut::from(&b"front"[..]);
            x.extend_from_slice(b);
            x.extend_from_slice(b"back");
            let mut y = x.split_off(5);
            let _ = y.split_off(b.len());
            y
        }
    }
}

fn payload(m: &Message) -> Option<Vec<u8>> {
    m.value().map(|v| v.to_vec())
}

/// A message made by the model, through the real codec.
fn check_frame(src: &mut Src, f: &Frame) -> Res {
    let m = msgs::build(f);
    let want = msgs::encode(f);
    ensure!(u8::from(m.kind()) == f.kind, "kind", "{f:?}: kind {:?}", m.kind());
    ensure!(m.kind().has_value() == f.value.is_some(), "has-value", "{f:?}");
    let carried = f.value.as_ref().filter(|_| !f.value_ignored());
    ensure!(payload(&m).as_ref() == carried, "value", "{f:?}: value() gives {:?}", payload(&m));
    let bytes = match m.clone().serialize_message() {
        Ok(b) => b,
        Err(e) => fail!("serialize", "{f:?}: {e:?}"),
    };
    ensure!(
        bytes.len() >= 5 && u32::from_le_bytes(bytes[..4].try_into().unwrap()) as usize == bytes.len(),
        "prefix",
        "{f:?}: frame of {} bytes: {}",
        bytes.len(),
        vp::hex(&bytes)
    );
    ensure!(bytes[..] == want[..], "layout", "{f:?}:\n wire format {}\n serialized  {}", vp::hex(&want), vp::hex(&bytes));
    let back = match Message::deserialize_message(buf(src, &bytes)) {
        Ok(b) => b,
        Err(e) => fail!("parse", "{f:?}: {} is rejected: {e:?}", vp::hex(&bytes)),
    };
    ensure!(back == m, "not-equal", "{f:?}:\n {m:?}\n {back:?}");
    ensure!(payload(&back) == payload(&m), "payload", "{f:?}: payload {:?}", payload(&back));
    // serializing the parsed message (which reuses the received buffer) gives the same frame
    match back.serialize_message() {
        Ok(b) => ensure!(b[..] == want[..], "layout-again", "{f:?}: {}", vp::hex(&b)),
        Err(e) => fail!("serialize-again", "{f:?}: {e:?}"),
    }
    Ok(())
}

/// Any bytes.
fn check_bytes(src: &mut Src, b: &[u8], ctx: &mut Ctx) -> Res {
    let r = msgs::parse(b);
    alloc::reset();
    let m = Message::deserialize_message(buf(src, b));
    match (m, r) {
        (Ok(m), Ok((f, canonical))) => {
            ctx.count(if canonical { "accepted" } else { "accepted, not canonical" });
            ensure!(m == msgs::build(&f), "meaning", "{} is {f:?} but parses as {m:?}", vp::hex(b));
            if !f.value_ignored() {
                ensure!(payload(&m) == f.value, "payload", "{} is {f:?} but carries {:?}", vp::hex(b), payload(&m));
            }
            let again = match m.clone().serialize_message() {
                Ok(a) => a,
                Err(e) => fail!("reserialize", "{} accepted as {m:?} which does not serialize: {e:?}", vp::hex(b)),
            };
            ensure!(
                u32::from_le_bytes(again[..4].try_into().unwrap()) as usize == again.len(),
                "reserialize-prefix",
                "{} -> {}",
                vp::hex(b),
                vp::hex(&again)
            );
            let m2 = Message::deserialize_message(again.clone());
            ensure!(m2.as_ref() == Ok(&m), "reparse", "{} -> {m:?} -> {} -> {m2:?}", vp::hex(b), vp::hex(&again));
        }
        (Ok(m), Err(e)) => fail!("accepts", "{} is malformed ({e}) but parses as {m:?}", vp::hex(b)),
        (Err(e), Ok((f, canonical))) => {
            // the property leaves it open whether overlong integers are well-formed
            ensure!(!canonical, "rejects", "{} is {f:?} but parsing says {e:?}", vp::hex(b));
            ctx.count("rejected, not canonical");
        }
        (Err(_), Err(e)) => ctx.count(e),
    }
    Ok(())
}

fn roundtrip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = msgs::gen_frame(src);
    ctx.describe(|| format!("{} {f:?}", f.name()));
    ctx.nontrivial = !f.fields.is_empty() || f.value.is_some();
    ctx.count(f.name());
    check_frame(src, &f)
}

/// All kinds and all combinations of alternatives, with boundary integers (exhaustive in these).
fn all_alternatives(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.below(63) as usize;
    ctx.nontrivial = true;
    let ints = [0u32, 1, 250, 251, 252, 253, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, u32::MAX];
    let mut n = 0u64;
    for alts in msgs::alternatives(kind) {
        for rot in 0..ints.len() {
            let mut i = rot;
            let mut j = 0u8;
            let fields = msgs::fields_with(
                kind,
                &alts,
                || {
                    i += 1;
                    ints[i % ints.len()]
                },
                || {
                    j += 1;
                    std::array::from_fn(|k| j.wrapping_mul(16).wrapping_add(k as u8))
                },
            );
            let value = msgs::KINDS[kind].1.then(|| vec![3u8, rot as u8]);
            let mut f = Frame { kind: kind as u8, value, fields };
            if f.value_ignored() {
                f.value = Some(vec![0]);
            }
            check_frame(src, &f)?;
            n += 1;
            // every truncation, and trailing bytes, with and without an adjusted prefix
            let b = msgs::encode(&f);
            for cut in 0..=b.len() + 2 {
                let mut c = b.clone();
                c.resize(cut, 0);
                check_bytes(src, &c, ctx)?;
                if cut >= 4 {
                    c[..4].copy_from_slice(&(cut as u32).to_le_bytes());
                    check_bytes(src, &c, ctx)?;
                }
            }
            if rot == 0 {
                // every value of every byte, one at a time
                for at in 0..b.len() {
                    let mut c = b.clone();
                    for x in 0..=255u8 {
                        c[at] = x;
                        check_bytes(src, &c, ctx)?;
                    }
                }
            }
        }
    }
    ctx.describe(|| format!("{}: {n} messages, all alternatives", msgs::KINDS[kind].0));
    ctx.count_n("messages", n);
    Ok(())
}

fn bytes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let b = match src.weighted(&[8, 2, 1]) {
        0 => {
            let f = msgs::gen_frame(src);
            let mut b = msgs::encode(&f);
            if b.len() > 400 {
                b.truncate(400);
            }
            if f.value.is_some() && src.chance(1, 3) {
                // the value length itself
                let v = *src.pick(&[0u32, 1, 2, 3, 255, 256, u32::MAX, 0x7fff_ffff, 0xffff_fff6, 0xffff_fff7]);
                let n = (b.len() as u32).wrapping_sub(9);
                let v = match src.us(4) {
                    0 => v,
                    1 => n,
                    2 => n.wrapping_add(v),
                    _ => n.wrapping_sub(v),
                };
                if b.len() >= 9 {
                    b[5..9].copy_from_slice(&v.to_le_bytes());
                }
            } else {
                wire::mutate(src, &mut b);
            }
            b
        }
        1 => {
            // overlong integers and foreign values in ignored positions
            let f = msgs::gen_frame(src);
            let mut b = vec![0, 0, 0, 0, f.kind];
            if f.value.is_some() {
                let v = wire::gen_leaf(src);
                let v = wire::encode(src, &v, wire::Epoch::V1, true);
                b.extend((v.len() as u32).to_le_bytes());
                b.extend(v);
            }
            for x in &f.fields {
                match x {
                    msgs::F::U(v) => {
                        let min = ((32 - v.leading_zeros() as usize).div_ceil(8)).max(1);
                        let len = src.range(min, 4);
                        b.push((251 + len) as u8);
                        b.extend_from_slice(&v.to_le_bytes()[..len]);
                    }
                    msgs::F::I(u) => b.extend(u),
                    msgs::F::D(d) => b.push(*d),
                }
            }
            b
        }
        _ => {
            let n = src.small(60);
            let mut b = src.bytes(n);
            if b.len() > 4 {
                b[4] %= 66;
            }
            b
        }
    };
    let mut b = b;
    if b.len() >= 4 && !src.chance(1, 6) {
        let n = b.len() as u32;
        b[..4].copy_from_slice(&n.to_le_bytes());
    }
    ctx.describe(|| vp::hex(&b));
    ctx.nontrivial = b.len() >= 6 && b[4] <= 62;
    check_bytes(src, &b, ctx)
}

/// Payloads made by the value serializer, and an empty value.
fn values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kinds: Vec<usize> = (0..63).filter(|k| msgs::KINDS[*k].1).collect();
    let kind = *src.pick(&kinds);
    let mut f = msgs::gen_frame_of(src, kind);
    let mut budget = 30;
    let n = wire::gen_value(src, 5, &mut budget);
    let sv = SerializedValue::serialize(crate::conv::to_value(&n)).expect("depth 5");
    if !f.value_ignored() {
        f.value = Some(sv.to_vec());
    }
    ctx.nontrivial = n.has_container();
    ctx.describe(|| format!("{} with {n:?}", f.name()));
    let mut m = msgs::build(&f);
    if let Some(v) = m.value_mut() {
        *v = sv.clone();
        let b = m.clone().serialize_message().map_err(|e| vp::Fail::new("value-serialize", format!("{e:?}")))?;
        ensure!(b[..] == msgs::encode(&f)[..], "value-layout", "{m:?}: {}", vp::hex(&b));
        let back = Message::deserialize_message(b).map_err(|e| vp::Fail::new("value-parse", format!("{e:?}")))?;
        let got = back.value().map(|v| v.deserialize_as_value().map(|v| crate::conv::from_value(&v)));
        ensure!(got == Some(Ok(n.clone())), "value-content", "{n:?} -> {got:?}");
        // an empty value cannot be sent
        let mut e = m.clone();
        *e.value_mut().unwrap() = SerializedValue::empty();
        ensure!(e.serialize_message().is_err(), "empty-value", "{} with an empty value serializes", f.name());
    }
    check_frame(src, &f)
}

pub fn property() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        rule: "Messages of all 63 kinds from an independent table-driven model of the frame layouts: all combinations of alternatives (results, ends, filters, options, events) with boundary integers, every truncation/extension of their frames and every value of every byte; random field values with payloads of 1..65536 bytes; mutated, overlong and random byte strings with correct and incorrect length prefixes. Real serialization must equal the model's frame, parsing must give the equal message and payload, the parser's verdict and meaning on arbitrary bytes must equal the model's. Non-trivial: the message has fields or a payload (roundtrip), at least 6 bytes with a known kind (bytes), payload with a container (values).",
        assumptions: &["the table in msgs.rs models the pinned message layouts"],
        parts: vec![
            Part::new("alternatives", Kind::Enumerate(|_| 63), all_alternatives).secs(30, 300),
            Part::new("roundtrip", Kind::Random(1_000_000, 40_000_000), roundtrip).secs(15, 900),
            Part::new("bytes", Kind::Random(4_000_000, 200_000_000), bytes).secs(15, 1200),
            Part::new("values", Kind::Random(400_000, 20_000_000), values).secs(10, 400),
        ],
    }
}
