//! C12: the client's half of the handshake, against a scripted broker and against the real one.
use crate::conv::raw_value;
use crate::msgs::{Frame, F};
use crate::sim::{now, Exec, Pipe, Port};
use crate::world::{frame, frame_v, show, uses_v2};
use aldrin::error::ConnectError;
use aldrin::{Client, Handle};
use aldrin_broker::{Acceptor, Broker};
use aldrin_core::tags::Value as VTag;
use aldrin_core::SerializedValue;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vp::wire::{self, Epoch, N};
use vp::{ensure, fail, Ctx, Res, Src};

fn value(src: &mut Src) -> (N, Vec<u8>) {
    let e = *src.pick(&[Epoch::V1, Epoch::V2, Epoch::Mixed]);
    let mut budget = 10;
    let d = src.range(1, 3);
    let n = wire::gen_value(src, d, &mut budget);
    let b = wire::encode(src, &n, e, false);
    (n, b)
}

fn decoded(b: &[u8]) -> Option<N> {
    match wire::decode_prefix(b, true) {
        Ok((n, k)) if k == b.len() => Some(n),
        _ => None,
    }
}

/// ConnectData and ConnectReplyData.
fn wrap(src: &mut Src, user: Option<&N>) -> N {
    let mut m = BTreeMap::new();
    match user {
        Some(n) => {
            m.insert(0, N::Some(Box::new(n.clone())));
        }
        None if src.bool() => {
            m.insert(0, N::None);
        }
        None => {}
    }
    if src.chance(1, 6) {
        // Something a later version adds.
        m.insert(src.range(1, 9) as u32, N::U8(src.byte()));
    }
    N::Struct(m)
}

fn user(b: &[u8]) -> Option<Option<N>> {
    let N::Struct(m) = decoded(b)? else { return None };
    match m.get(&0) {
        None | Some(N::None) => Some(None),
        Some(N::Some(x)) => Some(Some((**x).clone())),
        _ => None,
    }
}

enum Out {
    /// With the data of the broker's answer, when asked for.
    Ok(Box<Client<Port>>, Option<Option<N>>),
    Incompatible,
    Rejected(Option<Option<N>>),
    Unexpected(u8),
    Transport,
    Serialize,
    Deserialize,
}

fn seen(v: Option<&SerializedValue>) -> Option<Option<N>> {
    Some(v.map(|v| decoded(v.as_ref())).map(|n| n.unwrap_or(N::Str("not a value".into()))))
}

fn kind_of(m: aldrin_core::message::Message) -> u8 {
    use aldrin_core::message::MessageOps;
    m.kind().into()
}

/// The answer of a scripted broker.
#[derive(Debug, Clone)]
enum Reply {
    Version(u32),
    Incompatible,
    Rejected,
    Wrong(Frame),
    Fail,
}

pub fn builder(src: &mut Src, ctx: &mut Ctx) -> Res {
    let legacy = src.chance(2, 5);
    let ask = src.bool();
    let mode = src.us(4);
    let (tree, data) = value(src);
    let (rtree, _) = value(src);
    let with_reply = legacy || src.bool();
    let reply = match src.us(9) {
        0..=3 => Reply::Version(*src.pick(&[14u32, 15, 16, 17, 18, 19, 20, 20])),
        4 => Reply::Incompatible,
        5 => Reply::Rejected,
        6 if !legacy => Reply::Version(*src.pick(&[21u32, 22, 255, 256 + 14, 65536 + 20, u32::MAX])),
        7 => Reply::Fail,
        8 => Reply::Wrong(match src.us(5) {
            // Answers to the other request, and what is no answer.
            0 if legacy => frame_v(47, vec![F::D(0), F::U(20)], wire::encode_canonical(&N::Struct(BTreeMap::new()), Epoch::V1)),
            0 => frame_v(1, vec![F::D(0)], wire::encode_canonical(&N::None, Epoch::V1)),
            1 => frame(31, vec![F::U(0)]),
            2 => frame(2, vec![]),
            3 => frame(30, vec![F::U(1)]),
            _ => frame_v(46, vec![F::U(1), F::U(20)], wire::encode_canonical(&N::Struct(BTreeMap::new()), Epoch::V1)),
        }),
        _ => Reply::Version(20),
    };
    let pipe = Rc::new(RefCell::new(Pipe::default()));
    let port = Port { st: pipe.clone(), log: Rc::default() };
    // A reply in the encoding that the version has.
    let epoch = match reply {
        Reply::Version(20..) if !legacy => *src.pick(&[Epoch::V1, Epoch::V2, Epoch::Mixed]),
        _ => Epoch::V1,
    };
    let shape = wrap(src, with_reply.then_some(&rtree));
    let answer = |src: &mut Src, n: &N| wire::encode(src, n, epoch, false);
    let wrapped = answer(src, &shape);
    let plain = answer(src, &rtree);
    match &reply {
        Reply::Version(_) if legacy => pipe.borrow_mut().push_frame(frame_v(1, vec![F::D(0)], plain)),
        Reply::Version(v) => pipe.borrow_mut().push_frame(frame_v(47, vec![F::D(0), F::U(*v)], wrapped)),
        Reply::Incompatible if legacy => pipe.borrow_mut().push_frame(frame(1, vec![F::D(1), F::U(src.range(0, 40) as u32)])),
        Reply::Incompatible => pipe.borrow_mut().push_frame(frame_v(47, vec![F::D(2)], wrapped)),
        Reply::Rejected if legacy => pipe.borrow_mut().push_frame(frame_v(1, vec![F::D(2)], plain)),
        Reply::Rejected => pipe.borrow_mut().push_frame(frame_v(47, vec![F::D(1)], wrapped)),
        Reply::Wrong(f) => pipe.borrow_mut().push_frame(f.clone()),
        Reply::Fail => pipe.borrow_mut().push(crate::sim::In::Error),
    }
    ctx.describe(|| format!("legacy: {legacy}, ask: {ask}, data: {mode}, {tree:?}, answered by {reply:?} with {with_reply} {rtree:?}"));
    ctx.nontrivial = true;
    ctx.count(match reply {
        Reply::Version(..=20) => "accepted",
        Reply::Version(_) => "too new",
        Reply::Incompatible => "incompatible",
        Reply::Rejected => "rejected",
        Reply::Wrong(_) => "no answer",
        Reply::Fail => "transport errors",
    });

    let v = raw_value(&data);
    let out = now(async move {
        let mut b = Client::builder(port);
        let r = match mode {
            0 => Ok(()),
            1 => {
                b.set_data(v);
                Ok(())
            }
            2 => b.serialize_data(&v),
            _ => {
                // The last one counts.
                b.set_data(SerializedValue::serialize(1u32).unwrap());
                b.serialize_data_as::<VTag>(v.deserialize_as_value().unwrap())
            }
        };
        if r.is_err() {
            return Out::Serialize;
        }
        let r = match (legacy, ask) {
            (false, false) => b.connect().await.map(|c| (c, None)),
            (false, true) => b.connect_with_data().await.map(|(c, d)| (c, seen(d.as_ref()))),
            (true, false) => b.connect1().await.map(|c| (c, None)),
            (true, true) => b.connect1_with_data().await.map(|(c, d)| (c, seen(Some(&d)))),
        };
        match r {
            Ok((c, d)) => Out::Ok(Box::new(c), d),
            Err(ConnectError::IncompatibleVersion) => Out::Incompatible,
            Err(ConnectError::Rejected(d)) => Out::Rejected(seen(d.as_ref())),
            Err(ConnectError::UnexpectedMessageReceived(m)) => Out::Unexpected(kind_of(m)),
            Err(ConnectError::Transport(_)) => Out::Transport,
            Err(ConnectError::Serialize(_)) => Out::Serialize,
            Err(ConnectError::Deserialize(_)) => Out::Deserialize,
        }
    });
    let Some(out) = out else { fail!("connect-hangs", "connecting does not finish though the broker has answered") };

    // What the client says.
    let sent = std::mem::take(&mut pipe.borrow_mut().sent);
    let text: Vec<String> = sent.iter().map(show).collect();
    let fields = if legacy { vec![F::U(14)] } else { vec![F::U(1), F::U(20)] };
    let kind = if legacy { 0 } else { 46 };
    let unflushed = pipe.borrow().unflushed;
    if sent.len() != 1 || sent[0].kind != kind || sent[0].fields != fields || unflushed != 0 {
        fail!("connect-message", "sent {text:?}, {unflushed} not flushed");
    }
    let Some(b) = &sent[0].value else { fail!("connect-message", "{text:?} has no value") };
    if uses_v2(b) {
        fail!("connect-encoding", "{text:?} has containers that a broker of version 1.14 does not know");
    }
    let want = (mode != 0).then(|| tree.clone());
    if legacy {
        let got = decoded(b);
        ensure!(got == Some(want.clone().unwrap_or(N::None)), "connect-data", "sent {got:?} instead of {want:?}");
    } else {
        let got = user(b);
        ensure!(got == Some(want.clone()), "connect-data", "sent {got:?} instead of {want:?}");
    }

    // What it makes of the answer.
    let theirs = with_reply.then(|| rtree.clone());
    let m = |x: &str| format!("answered by {reply:?}: {x}");
    let (client, version) = match (out, &reply) {
        (Out::Ok(c, d), Reply::Version(v)) if *v <= 20 => {
            if let Some(d) = d {
                ensure!(d == theirs, "reply-data", "the broker's data are {theirs:?}, got {d:?}");
            }
            (c, if legacy { 14 } else { *v })
        }
        (Out::Ok(..), _) => fail!("connect-result", "{}", m("connected")),
        (Out::Incompatible, Reply::Incompatible) => return Ok(()),
        (Out::Incompatible, Reply::Version(21..)) => return Ok(()),
        (Out::Incompatible, _) => fail!("connect-result", "{}", m("incompatible")),
        (Out::Rejected(d), Reply::Rejected) => {
            ensure!(d == Some(theirs.clone()), "reply-data", "the broker's data are {theirs:?}, got {d:?}");
            return Ok(());
        }
        (Out::Rejected(_), _) => fail!("connect-result", "{}", m("rejected")),
        (Out::Unexpected(k), Reply::Wrong(f)) if f.kind == k => return Ok(()),
        (Out::Unexpected(k), _) => fail!("connect-result", "{}", m(&format!("unexpected message of kind {k}"))),
        (Out::Transport, Reply::Fail) => return Ok(()),
        (Out::Transport, _) => fail!("connect-result", "{}", m("transport error")),
        (Out::Serialize, _) => fail!("connect-result", "{}", m("serialization error")),
        (Out::Deserialize, _) => fail!("connect-result", "{}", m("deserialization error")),
    };

    // It knows its version and works.
    let mut ex = Exec::default();
    let h: Handle = client.handle().clone();
    ex.spawn(async move {
        let _ = client.run().await;
    });
    let got = Rc::new(RefCell::new((None, false)));
    let g2 = got.clone();
    ex.spawn(async move {
        let v = h.version().await;
        g2.borrow_mut().0 = Some(v);
        let r = h.sync_broker().await;
        g2.borrow_mut().1 = r.is_ok();
    });
    let mut asked = false;
    for _ in 0..300 {
        let Some(t) = ex.ready().first().copied() else { break };
        ex.poll(t);
        let s = std::mem::take(&mut pipe.borrow_mut().sent);
        for f in s {
            if f.kind == 30 && !asked {
                asked = true;
                pipe.borrow_mut().push_frame(frame(31, f.fields.clone()));
            }
        }
    }
    let g = got.borrow();
    match &g.0 {
        Some(Ok(v)) if (v.major(), v.minor()) == (1, version) => {}
        x => fail!("negotiated", "version 1.{version} was agreed on, the client says {x:?}"),
    }
    ensure!(g.1, "not-working", "a client of version 1.{version} does not finish to synchronize");
    Ok(())
}

/// A client and a broker that agree on a version, with data in both directions.
pub fn both(src: &mut Src, ctx: &mut Ctx) -> Res {
    use crate::tap::{pair, Tap, TapSt, Wire};
    let legacy = src.chance(1, 3);
    let minor = if legacy { 14 } else { *src.pick(&[20u32, 14, 15, 16, 17, 18, 19, 21, 40, u32::MAX, 13, 12, 0]) };
    let should = (minor >= 14).then_some(minor.min(20));
    let (ctree, cdata) = value(src);
    let (btree, bdata) = value(src);
    let (with_client, with_broker) = (src.bool(), src.bool());
    let accept = src.chance(3, 4);
    let size = *src.pick(&[Wire::Unbounded, Wire::Bounded(0), Wire::Bounded(1), Wire::Bounded(4), Wire::Stream(19), Wire::Stream(4096)]);
    ctx.describe(|| format!("1.{minor}, legacy: {legacy}, {with_client} {ctree:?}, {with_broker} {btree:?}, accept: {accept}, {size:?}"));
    ctx.nontrivial = true;
    let (a, b) = pair(size);
    let tap = Rc::new(RefCell::new(TapSt { minor, ..Default::default() }));
    let t = Tap { inner: Some(b), st: tap.clone() };
    let mut ex = Exec::default();
    let broker = Broker::new();
    let mut bh = broker.handle().clone();
    ex.spawn(broker.run());
    type Got = Option<Result<(Option<N>, u32), String>>;
    let theirs: Rc<RefCell<Got>> = Rc::default();
    let ours: Rc<RefCell<Got>> = Rc::default();
    let t2 = theirs.clone();
    let data = raw_value(&bdata);
    ex.spawn(async move {
        let mut acc = match Acceptor::new(a).await {
            Ok(acc) => acc,
            Err(e) => {
                *t2.borrow_mut() = Some(Err(format!("{e:?}")));
                return;
            }
        };
        let got = acc.client_data().map(|v| decoded(v.as_ref()).unwrap_or(N::Str("not a value".into())));
        *t2.borrow_mut() = Some(Ok((got, acc.version().minor())));
        if with_broker {
            let _ = acc.serialize_reply_data(&data);
        }
        if accept {
            if let Ok(c) = acc.accept(&mut bh).await {
                let _ = c.run().await;
            }
        } else {
            let _ = acc.reject().await;
        }
    });
    let o2 = ours.clone();
    let data = raw_value(&cdata);
    let synced = Rc::new(RefCell::new(false));
    let s2 = synced.clone();
    ex.spawn(async move {
        let mut b = Client::builder(t);
        if with_client {
            let _ = b.serialize_data(&data);
        }
        let r = if legacy {
            b.connect1_with_data().await.map(|(c, d)| (c, Some(d)))
        } else {
            b.connect_with_data().await
        };
        let (c, d) = match r {
            Ok(x) => x,
            Err(e) => {
                let r = match e {
                    ConnectError::Rejected(d) => Err(format!("rejected {:?}", seen(d.as_ref()))),
                    ConnectError::IncompatibleVersion => Err("incompatible".into()),
                    e => Err(format!("{e:?}")),
                };
                *o2.borrow_mut() = Some(r);
                return;
            }
        };
        let h = c.handle().clone();
        let d = d.map(|v| decoded(v.as_ref()).unwrap_or(N::Str("not a value".into())));
        let work = async {
            let v = h.version().await.map(|v| v.minor()).unwrap_or(0);
            *o2.borrow_mut() = Some(Ok((d, v)));
            *s2.borrow_mut() = h.sync_broker().await.is_ok();
            std::future::pending::<()>().await
        };
        futures_util::pin_mut!(work);
        let run = c.run();
        futures_util::pin_mut!(run);
        let _ = futures_util::future::select(run, work).await;
    });
    for _ in 0..400_000 {
        let r = ex.ready();
        if r.is_empty() {
            break;
        }
        let t = r[src.us(r.len())];
        ex.poll(t);
    }
    let (theirs, ours) = (theirs.borrow().clone(), ours.borrow().clone());
    let m = format!("the broker's side {theirs:?}, the client's {ours:?}");
    let unit = |w: bool, n: &N| match (w, legacy) {
        (true, _) => Some(n.clone()),
        (false, true) => Some(N::None),
        _ => None,
    };
    let Some(v) = should else {
        ctx.count("incompatible");
        let e = matches!(&theirs, Some(Err(e)) if e.starts_with("IncompatibleVersion"));
        ensure!(e && ours == Some(Err("incompatible".into())), "connect-result", "1.{minor}: {m}");
        return Ok(());
    };
    ensure!(theirs == Some(Ok((unit(with_client, &ctree), v))), "client-data", "1.{minor}, {ctree:?}: {m}");
    let want = unit(with_broker, &btree);
    if accept {
        ctx.count("accepted");
        ensure!(ours == Some(Ok((want.clone(), v))), "reply-data", "1.{minor}, {want:?}: {m}");
        ensure!(*synced.borrow(), "not-working", "1.{minor}: the client does not synchronize with the broker");
    } else {
        ctx.count("rejected");
        let want = format!("rejected {:?}", Some(want));
        ensure!(ours == Some(Err(want)), "reply-data", "1.{minor}, {btree:?}: {m}");
    }
    if let Some(b) = &tap.borrow().bad {
        fail!("version-gate", "{b}");
    }
    Ok(())
}
