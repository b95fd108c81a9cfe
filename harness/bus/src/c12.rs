//! C12: handshake, feature gates and payloads across protocol versions.
use crate::model::min_version;
use crate::msgs::{Frame, F};
use crate::ops::{self, Op, Profile};
use crate::props::finish_case;
use crate::sim::{now, Exec, Pipe, Port};
use crate::world::{frame, frame_v, settle, show, uses_v2, Stop, World};
use aldrin_broker::{AcceptError, Acceptor, Broker};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vp::wire::{self, Epoch, N};
use vp::{fail, Ctx, Kind, Part, Property, Res, Src};
use Op::*;

const MINORS: u64 = 60;

fn minor(i: u64) -> u32 {
    match i {
        0..=40 => i as u32,
        41 => 255,
        42 => 256,
        43 => 256 + 14,
        44 => 65536 + 14,
        45 => u32::MAX,
        46 => u32::MAX - 1,
        47 => 0x8000_0000,
        48 => 0x8000_000e,
        49 => 114,
        50 => 1014,
        51 => 0x0e00_0000,
        52 => 0x0100_0000,
        53 => 254,
        54 => 253,
        _ => 60 + i as u32,
    }
}

const MAJORS: &[u32] = &[1, 0, 2, 3, 14, 257, 0x0100_0000, 0x8000_0001, u32::MAX];

const fn handshakes() -> u64 {
    MINORS * (MAJORS.len() as u64 + 1)
}

/// How the broker's side decides, and through which interface.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Way {
    Handle,
    Accept,
    Reject,
}

fn user_value(src: &mut Src, epoch: Epoch) -> (N, Vec<u8>) {
    let mut budget = 10;
    let d = src.range(1, 3);
    let n = wire::gen_value(src, d, &mut budget);
    let b = wire::encode(src, &n, epoch, false);
    (n, b)
}

fn decoded(b: &[u8]) -> Option<N> {
    match wire::decode_prefix(b, true) {
        Ok((n, k)) if k == b.len() => Some(n),
        _ => None,
    }
}

/// The user data in a ConnectReplyData.
fn reply_user(b: &[u8]) -> Option<Option<N>> {
    let N::Struct(m) = decoded(b)? else { return None };
    match m.get(&0) {
        None | Some(N::None) => Some(None),
        Some(N::Some(x)) => Some(Some((**x).clone())),
        _ => None,
    }
}

fn handshake(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.u64();
    let (min, maj) = (minor(i % MINORS), i / MINORS % (MAJORS.len() as u64 + 1));
    let legacy = maj == MAJORS.len() as u64;
    let major = if legacy { 1 } else { MAJORS[maj as usize] };
    let way = match i / handshakes() % 4 {
        0 => Way::Handle,
        1 | 2 => Way::Accept,
        _ => Way::Reject,
    };
    let should = if legacy {
        (min == 14).then_some(14)
    } else {
        (major == 1 && min >= 14).then_some(min.min(20))
    };
    ctx.nontrivial = true;

    // What the client says. Anything before 1.20 has no new containers.
    let (tree, data) = user_value(src, if should == Some(20) { Epoch::Mixed } else { Epoch::V1 });
    let with_user = legacy || src.bool();
    let hello = if legacy {
        frame_v(0, vec![F::U(min)], data.clone())
    } else {
        let mut m = BTreeMap::new();
        if with_user {
            m.insert(0, N::Some(Box::new(tree.clone())));
        } else if src.bool() {
            m.insert(0, N::None);
        }
        frame_v(46, vec![F::U(major), F::U(min)], wire::encode_canonical(&N::Struct(m), Epoch::V1))
    };
    ctx.describe(|| format!("{}, {way:?}", show(&hello)));

    let mut ex = Exec::default();
    let broker = Broker::new();
    let mut handle = broker.handle().clone();
    ex.spawn(broker.run());
    let pipe = Rc::new(RefCell::new(Pipe::default()));
    pipe.borrow_mut().push_frame(hello);
    let port = Port { st: pipe.clone(), log: Rc::default() };
    let sent = || -> Vec<Frame> { std::mem::take(&mut pipe.borrow_mut().sent) };

    let (rtree, rdata) = user_value(src, Epoch::Mixed);
    let with_reply = src.bool();
    let res: Result<Option<_>, AcceptError<_>> = if way == Way::Handle {
        match now(async { handle.connect(port).await }) {
            Some(r) => r.map(Some),
            None => fail!("handshake-hangs", "BrokerHandle::connect does not finish"),
        }
    } else {
        let mut a = match now(Acceptor::new(port)) {
            Some(a) => a,
            None => fail!("handshake-hangs", "Acceptor::new does not finish"),
        };
        if let Ok(a) = &mut a {
            let got = a.client_data().map(|v| decoded(v.as_ref()));
            let want = with_user.then(|| Some(tree.clone()));
            if got != want {
                fail!("client-data", "the client sent {want:?}, the acceptor has {got:?}");
            }
            if with_reply {
                a.set_reply_data(crate::conv::raw_value(&rdata));
            }
            let v = a.version();
            if (v.major(), Some(v.minor())) != (1, should) {
                fail!("negotiated", "negotiated {v}, expected {should:?}");
            }
        }
        let r = match (a, way) {
            (Ok(a), Way::Accept) => now(async { a.accept(&mut handle).await }).map(|r| r.map(Some)),
            (Ok(a), _) => now(a.reject()).map(|r| r.map(|()| None)),
            (Err(e), _) => Some(Err(e)),
        };
        match r {
            Some(r) => r,
            None => fail!("handshake-hangs", "the acceptor does not finish"),
        }
    };
    let replies = sent();
    let text: Vec<String> = replies.iter().map(show).collect();
    let reply_kind = if legacy { 1 } else { 47 };
    let one = replies.len() == 1 && replies[0].kind == reply_kind;
    let unflushed = pipe.borrow().unflushed;
    if !one || unflushed > 0 {
        fail!("handshake-reply", "expected one {reply_kind}, sent and flushed: {text:?}, {unflushed} not flushed");
    }
    let r = &replies[0];
    let result = match r.fields[0] {
        F::D(d) => d,
        _ => unreachable!(),
    };
    // Ok, IncompatibleVersion and Rejected have different numbers in the two replies.
    let (ok, incompatible, rejected) = if legacy { (0, 1, 2) } else { (0, 2, 1) };
    let version = match (&res, should) {
        (Ok(Some(_)), Some(v)) => {
            if result != ok {
                fail!("handshake-reply", "accepted but answered by {text:?}");
            }
            if !legacy && r.fields.get(1) != Some(&F::U(v)) {
                fail!("negotiated", "expected version 1.{v}, answered by {text:?}");
            }
            v
        }
        (Ok(None), Some(v)) => {
            if result != rejected {
                fail!("handshake-reply", "rejected but answered by {text:?}");
            }
            v
        }
        (Err(AcceptError::IncompatibleVersion(v)), None) => {
            if result != incompatible {
                fail!("handshake-reply", "incompatible but answered by {text:?}");
            }
            if (v.major(), v.minor()) != (major, min) {
                fail!("incompatible", "the incompatible version {major}.{min} is reported as {v}");
            }
            if legacy && r.fields.get(1) != Some(&F::U(14)) {
                fail!("handshake-reply", "incompatible but answered by {text:?}");
            }
            14
        }
        (r, s) => {
            let r = r.as_ref().map(|c| c.is_some());
            fail!("handshake-result", "{major}.{min} legacy={legacy}: expected {s:?}, got {r:?}, answered by {text:?}")
        }
    };
    if let Some(v) = &r.value {
        if version < 20 && uses_v2(v) {
            fail!("reply-encoding", "version 1.{version} is answered by {text:?}");
        }
        if !(legacy && result == incompatible) {
            let got = if legacy { decoded(v).map(Some) } else { reply_user(v) };
            let set = with_reply && way != Way::Handle && should.is_some();
            let want = match (set, legacy) {
                (true, _) => Some(rtree.clone()),
                (false, true) => Some(N::None),
                _ => None,
            };
            if got != Some(want.clone()) {
                fail!("reply-data", "expected {want:?}, got {got:?}");
            }
        }
    }
    // The broker counts the connection, and no other.
    let live = matches!(&res, Ok(Some(_))) as usize;
    let mut h2 = handle.clone();
    let stats = Rc::new(RefCell::new(None));
    let s2 = stats.clone();
    ex.spawn(async move { *s2.borrow_mut() = h2.take_statistics().await.ok().map(|s| s.num_connections()) });
    let conn = match res {
        Ok(Some(c)) => Some(c),
        _ => None,
    };
    let done = Rc::new(RefCell::new(false));
    let d2 = done.clone();
    if let Some(c) = conn {
        pipe.borrow_mut().push_frame(frame(30, vec![F::U(7)]));
        ex.spawn(async move {
            let _ = c.run().await;
            *d2.borrow_mut() = true;
        });
    }
    for _ in 0..200 {
        let Some(t) = ex.ready().first().copied() else { break };
        ex.poll(t);
    }
    if *stats.borrow() != Some(live) {
        fail!("connections", "{live} connection(s) but statistics say {:?}", stats.borrow());
    }
    if live == 1 {
        let s = sent();
        if *done.borrow() || s.len() != 1 || s[0].kind != 31 || s[0].fields != [F::U(7)] {
            fail!("not-served", "Sync of version {major}.{min} is answered by {:?}", s.iter().map(show).collect::<Vec<_>>());
        }
    }
    Ok(())
}

// -------------------------------------------------------------------------------------- gates

const GATE_VERSIONS: &[u32] = &[14, 15, 16, 17, 18, 19, 20, 21, 33, u32::MAX];
const GATED: &[u8] = &[3, 5, 7, 9, 11, 12, 13, 15, 16, 17, 19, 21, 24, 27, 29, 30, 33, 35, 37, 38, 39, 40, 42, 48, 49, 50, 51, 52, 53, 55, 57, 58, 60, 62];

/// Every message a client can send, in every version.
fn gates(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.u64();
    let n = GATED.len() as u64;
    let kind = GATED[(i % n) as usize];
    let v = GATE_VERSIONS[(i / n) as usize % GATE_VERSIONS.len()];
    let mut w = World::new(KINDS, ctx.want_desc);
    w.check_versions = true;
    let r = gate_case(&mut w, src, ctx, kind, v);
    ctx.nontrivial = true;
    finish_case(&mut w, ctx, &[], r)
}

fn gate_case(w: &mut World, src: &mut Src, ctx: &mut Ctx, kind: u8, v: u32) -> Result<(), Stop> {
    // The other one has what the message may talk about.
    w.connect(20, false, vec![0])?;
    w.connect(v, v == 14 && src.bool(), vec![0])?;
    let rounds = src.us(3);
    for _ in 0..rounds {
        for op in PROFILE.setup {
            if src.chance(3, 4) {
                ops::apply(w, src, &PROFILE, *op)?;
                w.quiesce(src)?;
            }
        }
    }
    w.check_quiet(src)?;
    if w.live().len() != 2 {
        return Ok(());
    }
    let mut f = match kind {
        49..=51 => ops::fitting(w, src, 1, kind),
        _ => {
            let op = op_of(kind);
            let mut f = None;
            for _ in 0..20 {
                f = ops::message(w, src, 1, op).filter(|f| f.kind == kind);
                if f.is_some() {
                    break;
                }
            }
            match f {
                Some(f) => f,
                None => ops::fitting(w, src, 1, kind),
            }
        }
    };
    match kind {
        // Only the broker may send these without a serial.
        13 | 58 if f.fields[0] == F::D(0) => f.fields.splice(0..1, [F::D(1), F::U(3)]).for_each(drop),
        11 | 62 => {
            // Nothing pending under the same serial.
            f.fields[0] = F::U(0x1234_5678);
        }
        51 => {
            // Nobody asked.
            return gate_intro(w, src, ctx, f);
        }
        49 | 50 => return gate_intro(w, src, ctx, f),
        _ => {}
    }
    let negotiated = v.min(20);
    ctx.count(if negotiated < min_version(kind) { "closed" } else { "allowed" });
    w.send(1, f);
    w.check_quiet(src)?;
    // The other one is served, whatever happened.
    w.send(0, frame(30, vec![F::U(1)]));
    if negotiated >= min_version(kind) {
        w.send(1, frame(30, vec![F::U(2)]));
    }
    w.check_quiet(src)?;
    if w.conns[1].result.borrow().is_some() != (negotiated < min_version(kind)) {
        let e = format!("version 1.{v} sent {}; ended: {:?}", crate::world::kind_name(kind), w.conns[1].result.borrow());
        return Err(w.problem(true, "gate", e));
    }
    Ok(())
}

/// Introspection is not modelled.
fn gate_intro(w: &mut World, src: &mut Src, ctx: &mut Ctx, f: Frame) -> Result<(), Stop> {
    let low = w.conns[1].version < 17;
    ctx.count(if low { "closed" } else { "allowed" });
    w.deferred = true;
    let text = show(&f);
    // An unsolicited reply may be refused.
    let open = f.kind == 51 && !low;
    w.send(1, f);
    w.quiesce(src)?;
    let ended = w.conns[1].result.borrow().clone();
    if ended.is_some() != low && !open {
        return Err(w.problem(true, "gate", format!("{} sent {text}; ended: {ended:?}", w.conns[1].version)));
    }
    let got = std::mem::take(&mut w.conns[1].pipe.borrow_mut().sent);
    if let Some(x) = got.iter().find(|x| low && x.kind != 2) {
        return Err(w.problem(true, "gate", format!("refused {text}, but answered by {}", show(x))));
    }
    if w.conns[0].result.borrow().is_some() {
        return Err(w.problem(true, "other-ended", format!("the other connection ends because of {text}")));
    }
    Ok(())
}

fn op_of(kind: u8) -> Op {
    match kind {
        3 => CreateObject,
        5 => DestroyObject,
        7 | 52 => CreateService,
        9 => DestroyService,
        11 | 62 => Call,
        12 => Reply,
        13 => SubEvent,
        15 => UnsubEvent,
        16 => Emit,
        17 => QueryVersion,
        19 => CreateChan,
        21 => CloseChan,
        24 => ClaimChan,
        27 => SendItem,
        29 => AddCap,
        30 => Sync,
        33 => CreateLis,
        35 => DestroyLis,
        37 => AddFilter,
        38 => RemoveFilter,
        39 => ClearFilters,
        40 => StartLis,
        42 => StopLis,
        48 => Abort,
        53 => QueryInfo,
        55 => SubSvc,
        57 => UnsubSvc,
        58 => SubAll,
        60 => UnsubAll,
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------------------------ payloads

const KINDS: &[u8] = &[11, 62, 12, 48, 16, 28, 54];
const PROFILE: Profile = Profile {
    conns: (2, 5),
    max_conns: 5,
    len: (10, 60),
    ops: &[
        (CreateObject, 4),
        (CreateService, 8),
        (QueryInfo, 5),
        (QueryVersion, 2),
        (Call, 12),
        (Reply, 12),
        (Abort, 5),
        (SubEvent, 6),
        (SubAll, 4),
        (SubSvc, 2),
        (Emit, 10),
        (CreateChan, 5),
        (ClaimChan, 6),
        (SendItem, 10),
        (AddCap, 3),
        (CreateLis, 1),
        (AddFilter, 1),
        (StartLis, 1),
        (DestroyService, 1),
        (DestroyObject, 1),
        (Gated, 2),
        (Connect, 3),
        (Shutdown, 1),
        (Quiesce, 1),
    ],
    setup: &[CreateObject, CreateService, SubEvent, Call, SubAll, CreateChan, ClaimChan, CreateLis, AddFilter, StartLis],
};

fn histories(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(KINDS, ctx.want_desc);
    w.check_versions = true;
    let r = ops::history(&mut w, src, &PROFILE).and_then(|()| ops::finish(&mut w, src));
    let m = |k| w.matched.get(&k).copied().unwrap_or(0);
    ctx.nontrivial = m(11) + m(62) + m(12) + m(16) + m(28) >= 2;
    finish_case(
        &mut w,
        ctx,
        &[(62, "calls"), (12, "replies"), (48, "aborts"), (16, "events"), (28, "items"), (54, "service infos")],
        r,
    )
}

/// A big value.
fn value(src: &mut Src, v: u32) -> (N, Vec<u8>) {
    let n = match src.us(4) {
        0 => {
            let d = src.range(2, 31);
            wire::gen_chain(src, d)
        }
        _ => {
            let mut budget = *src.pick(&[8isize, 20, 60]);
            let d = src.range(1, 6);
            wire::gen_value(src, d, &mut budget)
        }
    };
    let e = if v < 20 { Epoch::V1 } else { *src.pick(&[Epoch::V2, Epoch::Mixed, Epoch::V1]) };
    let b = wire::encode(src, &n, e, false);
    (n, b)
}

/// Every payload-carrying route between two versions.
fn payloads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.u64();
    let (va, vb) = (14 + (i % 7) as u32, 14 + (i / 7 % 7) as u32);
    let mut w = World::new(&[], ctx.want_desc);
    w.deferred = true;
    let r = routes(&mut w, src, ctx, va, vb);
    if ctx.want_desc {
        let t = w.trace.join("\n");
        ctx.describe(|| t);
    }
    settle(r)
}

struct Routes<'a> {
    w: &'a mut World,
    v: [u32; 2],
}

impl Routes<'_> {
    fn hear(&mut self, src: &mut Src, c: usize) -> Result<Vec<Frame>, Stop> {
        self.w.quiesce(src)?;
        self.w.log.borrow_mut().clear();
        for k in 0..2 {
            let r = self.w.conns[k].result.borrow().clone();
            if let Some(r) = r {
                let m = format!("connection {k} (1.{}) ended with {r:?}", self.v[k]);
                return Err(self.w.problem(true, "connection-ended", m));
            }
        }
        let fs: Vec<Frame> = std::mem::take(&mut self.w.conns[c].pipe.borrow_mut().sent);
        for f in &fs {
            self.w.note(|| format!("  -> c{c} {}", show(f)));
            if min_version(f.kind) > self.v[c] {
                let m = format!("connection {c} (1.{}) is sent {}", self.v[c], show(f));
                return Err(self.w.problem(true, "too-new", m));
            }
            if let Some(b) = &f.value {
                if self.v[c] < 20 && uses_v2(b) {
                    let m = format!("connection {c} (1.{}) is sent new encodings: {}", self.v[c], show(f));
                    return Err(self.w.problem(true, "encoding", m));
                }
            }
        }
        Ok(fs)
    }

    fn expect(&mut self, src: &mut Src, c: usize, kinds: &[u8], tree: Option<&N>) -> Result<Frame, Stop> {
        let fs = self.hear(src, c)?;
        let hit: Vec<&Frame> = fs.iter().filter(|f| kinds.contains(&f.kind)).collect();
        if hit.len() != 1 {
            let m = format!("connection {c} (1.{}) is sent {:?}", self.v[c], fs.iter().map(show).collect::<Vec<_>>());
            return Err(self.w.problem(true, "not-delivered", m));
        }
        let f = hit[0].clone();
        if let Some(t) = tree {
            let got = f.value.as_ref().and_then(|b| decoded(b));
            if got.as_ref() != Some(t) {
                let m = format!("{t:?}\narrives at connection {c} (1.{}) as\n{got:?}\nin {}", self.v[c], show(&f));
                return Err(self.w.problem(true, "meaning", m));
            }
        }
        Ok(f)
    }
}

fn routes(w: &mut World, src: &mut Src, ctx: &mut Ctx, va: u32, vb: u32) -> Result<(), Stop> {
    for v in [va, vb] {
        w.connect(v, v == 14 && src.bool(), vec![0])?;
    }
    let mut r = Routes { w, v: [va, vb] };
    let mut serial = 0u32;
    let mut next = || {
        serial += 1;
        F::U(serial)
    };
    let idf = |f: &Frame, n: usize| f.fields[n].clone();
    // 0 owns the service.
    r.w.send(0, frame(3, vec![next(), F::I([7; 16])]));
    let f = r.expect(src, 0, &[4], None)?;
    let obj = idf(&f, 2);
    let info = (src.int(32) as u32, src.bool().then(|| ops::uuid_of(1)), *src.pick(&[None, Some(true), Some(false)]));
    let second = va >= 17 && src.bool();
    if second {
        let b = wire::encode_canonical(&crate::model::info_tree(&info), if va < 20 { Epoch::V1 } else { Epoch::V2 });
        r.w.send(0, frame_v(52, vec![next(), obj, F::I([8; 16])], b));
    } else {
        r.w.send(0, frame(7, vec![next(), obj, F::I([8; 16]), F::U(info.0)]));
    }
    let f = r.expect(src, 0, &[8], None)?;
    let svc = idf(&f, 2);
    r.w.send(1, frame(17, vec![next(), svc.clone()]));
    let f = r.expect(src, 1, &[18], None)?;
    if f.fields[1..] != [F::D(0), F::U(info.0)] {
        return Err(r.w.problem(true, "meaning", format!("version {} is queried as {}", info.0, show(&f))));
    }
    if vb >= 17 {
        r.w.send(1, frame(53, vec![next(), svc.clone()]));
        let f = r.expect(src, 1, &[54], None)?;
        let got = f.value.as_ref().and_then(|b| crate::model::info_of(b));
        let want = match (second, va >= 18) {
            (true, true) => info,
            (true, false) => (info.0, info.1, Some(false)),
            (false, _) => (info.0, None, None),
        };
        let norm = |x: (u32, Option<[u8; 16]>, Option<bool>)| (x.0, x.1, x.2.unwrap_or(false));
        if got.map(norm) != Some(norm(want)) {
            return Err(r.w.problem(true, "meaning", format!("{want:?} is queried as {}: {got:?}", show(&f))));
        }
    }
    // Calls and replies.
    let n = src.range(1, 2);
    for _ in 0..n {
        let (t, b) = value(src, vb);
        let func = F::U(src.int(32) as u32);
        let s = next();
        let version = if vb >= 19 && src.chance(2, 3) { Some(src.bool().then(|| src.int(32) as u32)) } else { None };
        match version {
            Some(v) => {
                let mut x = vec![s.clone(), svc.clone(), func.clone()];
                match v {
                    Some(v) => x.extend([F::D(1), F::U(v)]),
                    None => x.push(F::D(0)),
                }
                r.w.send(1, frame_v(62, x, b));
            }
            None => r.w.send(1, frame_v(11, vec![s.clone(), svc.clone(), func.clone()], b)),
        }
        let f = r.expect(src, 0, if va >= 19 { &[11, 62] } else { &[11] }, Some(&t))?;
        let mut ok = f.fields[1] == svc && f.fields[2] == func;
        if f.kind == 62 {
            ok &= match version.flatten() {
                Some(v) => f.fields[3..] == [F::D(1), F::U(v)],
                None => f.fields[3..] == [F::D(0)],
            };
        } else if va >= 19 && version.flatten().is_some() {
            // The callee could have been told.
            ok = false;
        }
        if !ok {
            return Err(r.w.problem(true, "meaning", format!("{func:?} {version:?} arrives as {}", show(&f))));
        }
        if vb >= 16 && src.chance(1, 4) {
            r.w.send(1, frame(48, vec![s.clone()]));
            let g = r.expect(src, 1, &[12], None)?;
            if g.fields != [s.clone(), F::D(2)] {
                return Err(r.w.problem(true, "meaning", format!("an aborted call is answered by {}", show(&g))));
            }
            let h = r.hear(src, 0)?;
            let told = h.iter().filter(|x| x.kind == 48 && x.fields == [f.fields[0].clone()]).count();
            if told != (va >= 16) as usize {
                let m = format!("the callee (1.{va}) is told {told} times about an abort");
                return Err(r.w.problem(true, "abort", m));
            }
        } else {
            let (t, b) = value(src, va);
            let res = F::D(src.below(2) as u8);
            r.w.send(0, frame_v(12, vec![f.fields[0].clone(), res.clone()], b));
            let g = r.expect(src, 1, &[12], Some(&t))?;
            if g.fields != [s, res.clone()] {
                return Err(r.w.problem(true, "meaning", format!("a reply {res:?} arrives as {}", show(&g))));
            }
        }
        ctx.count("calls");
    }
    // Events.
    let all = vb >= 18 && va >= 18 && second && info.2 == Some(true) && src.bool();
    if all {
        r.w.send(1, frame(58, vec![F::D(1), next(), svc.clone()]));
        let f = r.expect(src, 1, &[59], None)?;
        if f.fields[1] != F::D(0) {
            return Err(r.w.problem(true, "meaning", format!("SubscribeAllEvents is answered by {}", show(&f))));
        }
    } else {
        let F::U(s) = next() else { unreachable!() };
        r.w.send(1, frame(13, vec![F::D(1), F::U(s), svc.clone(), F::U(5)]));
        r.expect(src, 1, &[14], None)?;
    }
    let (t, b) = value(src, va);
    r.w.send(0, frame_v(16, vec![svc.clone(), F::U(5)], b));
    let f = r.expect(src, 1, &[16], Some(&t))?;
    if f.fields != [svc.clone(), F::U(5)] {
        return Err(r.w.problem(true, "meaning", format!("an event arrives as {}", show(&f))));
    }
    r.hear(src, 0)?;
    // Items, both ways.
    for (a, b) in [(0, 1), (1, 0)] {
        r.w.send(a, frame(19, vec![next(), F::D(0)]));
        let f = r.expect(src, a, &[20], None)?;
        let ch = idf(&f, 1);
        r.w.send(b, frame(24, vec![next(), ch.clone(), F::D(1), F::U(4)]));
        r.expect(src, b, &[25], None)?;
        let (t, v) = value(src, r.v[a]);
        r.w.send(a, frame_v(27, vec![ch.clone()], v));
        let f = r.expect(src, b, &[28], Some(&t))?;
        if f.fields != [ch] {
            return Err(r.w.problem(true, "meaning", format!("an item arrives as {}", show(&f))));
        }
    }
    // Introspection.
    if va >= 17 && vb >= 17 {
        let id = ops::uuid_of(3);
        let set = N::Set(9, [wire::K::Uuid(id)].into_iter().collect());
        r.w.send(0, frame_v(49, vec![], wire::encode_canonical(&set, if va < 20 { Epoch::V1 } else { Epoch::V2 })));
        r.hear(src, 0)?;
        let s = next();
        r.w.send(1, frame(50, vec![s.clone(), F::I(id)]));
        let f = r.expect(src, 0, &[50], None)?;
        let (t, b) = value(src, va);
        r.w.send(0, frame_v(51, vec![f.fields[0].clone(), F::D(0)], b));
        let f = r.expect(src, 1, &[51], Some(&t))?;
        if f.fields != [s, F::D(0)] {
            return Err(r.w.problem(true, "meaning", format!("introspection arrives as {}", show(&f))));
        }
        // Once more, from what the broker keeps.
        let s = next();
        r.w.send(1, frame(50, vec![s.clone(), F::I(id)]));
        let f = r.expect(src, 1, &[51], Some(&t))?;
        if f.fields != [s, F::D(0)] {
            return Err(r.w.problem(true, "meaning", format!("introspection arrives as {}", show(&f))));
        }
        ctx.count("introspection");
    }
    ctx.nontrivial = true;
    ctx.count("pairs");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        rule: "handshakes and gates: every case; routes: every route allowed by both versions was used; histories: at least two payloads arrived",
        assumptions: &[
            "raw clients speak the protocol over in-memory transports",
            "the encodings are those of the reference codec in harness/vp/src/wire.rs",
            "clients older than 1.20 send no values in the new encodings",
            "the reference model in harness/bus/src/model.rs",
        ],
        parts: vec![
            Part::new("handshakes", Kind::Enumerate(|t| handshakes() * if t { 400 } else { 8 }), handshake).fresh().secs(10, 300),
            Part::new("builder", Kind::Random(20_000, 1_000_000), crate::connect::builder).fresh().secs(10, 300),
            Part::new("both ends", Kind::Random(20_000, 1_000_000), crate::connect::both).fresh().secs(10, 300),
            Part::new(
                "gates",
                Kind::Enumerate(|t| {
                    (GATED.len() * GATE_VERSIONS.len()) as u64 * if t { 2000 } else { 60 }
                }),
                gates,
            )
            .fresh()
            .secs(15, 600),
            Part::new("routes", Kind::Enumerate(|t| 49 * if t { 60_000 } else { 3000 }), payloads).fresh().secs(15, 900),
            Part::new("clients", Kind::Random(20_000, 2_000_000), crate::clients::c12).fresh().secs(20, 900),
            Part::new("histories", Kind::Random(200_000, 6_000_000), histories).fresh().secs(20, 900),
        ],
    }
}
