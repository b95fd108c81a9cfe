//! C11: arbitrary message sequences of some connections must not harm the broker or the others.
use crate::msgs::{self, Frame, F};
use crate::ops::{self, Op, Profile};
use crate::props::finish_case;
use crate::sim::Ev;
use crate::world::{frame, frame_v, settle, show, Life, Stop, World, ALL_KINDS};
use crate::{bytesgen, model::Id};
use vp::wire::{self, Epoch};
use vp::{Ctx, Kind, Part, Property, Res, Src};
use Op::*;

const PROFILE: Profile = Profile {
    conns: (2, 4),
    max_conns: 4,
    len: (10, 60),
    ops: &[
        (CreateObject, 6),
        (DestroyObject, 2),
        (CreateService, 8),
        (DestroyService, 2),
        (Call, 8),
        (Reply, 6),
        (Abort, 2),
        (SubEvent, 6),
        (UnsubEvent, 2),
        (Emit, 6),
        (SubAll, 4),
        (UnsubAll, 2),
        (SubSvc, 2),
        (UnsubSvc, 1),
        (QueryVersion, 1),
        (QueryInfo, 1),
        (CreateChan, 5),
        (ClaimChan, 6),
        (CloseChan, 2),
        (SendItem, 8),
        (AddCap, 4),
        (CreateLis, 2),
        (DestroyLis, 1),
        (AddFilter, 4),
        (RemoveFilter, 1),
        (StartLis, 3),
        (StopLis, 1),
        (Sync, 1),
    ],
    setup: &[
        CreateObject, CreateService, SubEvent, Call, CreateLis, AddFilter, StartLis, SubAll, CreateChan, ClaimChan, SubSvc,
    ],
};

/// Identifiers somebody has used.
fn pool(w: &World) -> Vec<Id> {
    let mut v: Vec<Id> = (0..3).map(ops::uuid_of).collect();
    v.extend(w.model.ids.iter().flatten());
    v.extend(w.known.objs.iter().map(|x| x.1));
    v.extend(w.known.svcs.iter().map(|x| x.1));
    v
}

/// An identifier that fits the field's purpose better than one from the whole pool.
fn fitting(w: &World, src: &mut Src, c: usize, kind: u8, pos: usize) -> Id {
    match kind {
        3 => ops::uuid_of(src.us(3)),
        5 => ops::any_obj(w, src, c, 4),
        7 | 52 if pos == 1 => ops::uuid_of(src.us(3)),
        7 | 52 => ops::any_obj(w, src, c, 6),
        9 | 11 | 13 | 15 | 16 | 17 | 32 | 53 | 55 | 57 | 58 | 60 | 62 => ops::any_svc(w, src, c, 4),
        19..=29 => {
            let v: Vec<Id> =
                w.model.chans.keys().chain(w.model.dead_chans.keys()).filter_map(|s| w.model.ids[*s]).collect();
            if v.is_empty() {
                ops::garbage_id(src)
            } else {
                *src.pick(&v)
            }
        }
        33..=36 | 40..=45 => {
            let v: Vec<Id> = w.model.lis.keys().filter_map(|s| w.model.ids[*s]).collect();
            if v.is_empty() {
                ops::garbage_id(src)
            } else {
                *src.pick(&v)
            }
        }
        37..=39 if pos == 0 => {
            let v: Vec<Id> = w.model.lis.keys().filter_map(|s| w.model.ids[*s]).collect();
            if v.is_empty() {
                ops::garbage_id(src)
            } else {
                *src.pick(&v)
            }
        }
        _ => ops::uuid_of(src.us(4)),
    }
}

fn hostile_value(src: &mut Src, c_version: u32, kind: u8) -> Vec<u8> {
    match src.us(6) {
        0 | 1 => ops::payload(src, c_version),
        2 => {
            // Well-formed, possibly of the wrong epoch for the sender.
            let mut budget = 12;
            let d = src.range(1, 4);
            let n = wire::gen_value(src, d, &mut budget);
            wire::encode(src, &n, Epoch::Mixed, false)
        }
        3 => {
            if kind == 52 {
                ops::service_info(src, c_version)
            } else {
                // Nested deeper than allowed.
                let n = src.range(30, 40);
                let mut b = vec![1u8; n];
                b.push(0);
                b
            }
        }
        4 => {
            // Almost a value.
            let mut budget = 12;
            let d = src.range(1, 4);
            let n = wire::gen_value(src, d, &mut budget);
            let mut b = wire::encode(src, &n, Epoch::Mixed, false);
            match src.us(3) {
                0 if b.len() > 1 => {
                    let k = src.range(1, b.len() - 1);
                    b.truncate(k);
                }
                1 => b.push(src.byte()),
                _ => {
                    let k = src.us(b.len());
                    b[k] = src.byte();
                }
            }
            b
        }
        _ => {
            let b = bytesgen::gen_bytes(src).0;
            if b.is_empty() {
                vec![0]
            } else {
                b
            }
        }
    }
}

/// Any message, mostly with identifiers and serials that mean something to somebody.
fn hostile(w: &mut World, src: &mut Src, c: usize) -> Frame {
    let v = w.conns[c].version;
    // Prefer what clients may send; everything else is refused at once.
    let mut kind = 30;
    for _ in 0..20 {
        let k = src.us(63) as u8;
        if !crate::model::wrong_direction(k) || src.chance(1, 10) {
            kind = k;
            break;
        }
    }
    let mut f = msgs::gen_frame_of(src, kind as usize);
    let ids = pool(w);
    let calls: Vec<u32> = w.known.calls.iter().map(|x| x.1).collect();
    let mut pos = 0;
    for i in 0..f.fields.len() {
        match f.fields[i] {
            F::I(_) => {
                let id = match src.weighted(&[8, 3, 1]) {
                    0 => fitting(w, src, c, kind, pos),
                    1 => *src.pick(&ids),
                    _ => ops::garbage_id(src),
                };
                f.fields[i] = F::I(id);
                pos += 1;
            }
            F::U(_) => {
                let s = match src.weighted(&[4, if calls.is_empty() { 0 } else { 4 }, 2, 1]) {
                    0 => src.below(6) as u32,
                    1 => *src.pick(&calls),
                    2 => ops::capacity(src),
                    _ => src.u64() as u32,
                };
                f.fields[i] = F::U(s);
            }
            F::D(_) => {}
        }
    }
    if f.value.is_some() {
        f.value = Some(match kind {
            49 if src.bool() => {
                let n = src.us(4);
                let set = (0..n).map(|_| wire::K::Uuid(ops::uuid_of(src.us(4)))).collect();
                wire::encode_canonical(&wire::N::Set(9, set), if v < 20 { Epoch::V1 } else { Epoch::V2 })
            }
            52 if src.bool() => ops::service_info(src, v),
            k => hostile_value(src, v, k),
        });
    }
    f
}

/// A client that breaks the rules on purpose, in ways that need some state.
fn cunning(w: &mut World, src: &mut Src, c: usize) -> Option<Frame> {
    let v = w.conns[c].version;
    Some(match src.us(7) {
        0 => {
            // A second call with the serial of a pending one.
            let p: Vec<u32> = w.conns[c].pending_calls.iter().copied().collect();
            if p.is_empty() {
                return None;
            }
            let s = F::U(*src.pick(&p));
            let svc = F::I(ops::any_svc(w, src, c, 1));
            frame_v(11, vec![s, svc, F::U(0)], hostile_value(src, v, 11))
        }
        1 => {
            // A reply to the call of somebody else, or again to one's own.
            let k: Vec<u32> = w.known.calls.iter().map(|x| x.1).collect();
            if k.is_empty() {
                return None;
            }
            let s = F::U(*src.pick(&k));
            let r = src.below(6) as u8;
            frame_v(12, vec![s, F::D(r)], hostile_value(src, v, 12))
        }
        2 => {
            let m: Vec<_> = w.model.svcs.iter().filter(|(_, s)| s.owner == c).filter_map(|x| w.model.ids[*x.0]).collect();
            if m.is_empty() {
                return None;
            }
            let s = F::I(*src.pick(&m));
            frame_v(16, vec![s, F::U(src.below(3) as u32)], hostile_value(src, v, 16))
        }
        3 => {
            let m: Vec<_> = w.model.chans.keys().filter_map(|x| w.model.ids[*x]).collect();
            if m.is_empty() {
                return None;
            }
            let s = F::I(*src.pick(&m));
            frame_v(27, vec![s], hostile_value(src, v, 27))
        }
        4 => {
            let m: Vec<_> = w.model.chans.keys().filter_map(|x| w.model.ids[*x]).collect();
            if m.is_empty() {
                return None;
            }
            frame(29, vec![F::I(*src.pick(&m)), F::U(ops::capacity(src))])
        }
        5 => frame_v(51, vec![F::U(src.below(4) as u32), F::D(src.below(2) as u8)], hostile_value(src, v, 51)),
        _ => {
            let s = F::I(ops::any_svc(w, src, c, 1));
            match src.us(3) {
                0 => frame(13, vec![F::D(0), s, F::U(src.below(3) as u32)]),
                1 => frame(58, vec![F::D(0), s]),
                _ => frame(60, vec![F::D(0), s]),
            }
        }
    })
}

fn attack_message(w: &mut World, src: &mut Src, c: usize) -> Option<Frame> {
    match src.weighted(&[2, 8, 3]) {
        0 => Some(hostile(w, src, c)),
        1 => {
            let op = legal_op(src);
            ops::message(w, src, c, op)
        }
        _ => cunning(w, src, c),
    }
}

fn legal_op(src: &mut Src) -> Op {
    let ws: Vec<u64> = PROFILE.ops.iter().map(|x| x.1).collect();
    PROFILE.ops[src.weighted(&ws)].0
}

/// A garbage payload that must be looked at on its way to a peer of another epoch.
fn crosses_epochs(w: &World, c: usize, f: &Frame) -> bool {
    let Some(v) = &f.value else { return false };
    if w.conns[c].version < 20 || !matches!(f.kind, 11 | 62 | 12 | 16 | 27) {
        return false;
    }
    !matches!(wire::decode_prefix(v, false), Ok((_, n)) if n == v.len())
}

/// Runs everything, decides the attacker's fate by what happened to its connection, and compares.
fn serve(w: &mut World, src: &mut Src) -> Result<(), Stop> {
    w.quiesce(src)?;
    let evs: Vec<Ev> = w.log.borrow_mut().drain(..).collect();
    for ev in evs {
        if let Ev::Msg(c, f) = &ev {
            let c = *c;
            if w.conns[c].attacker {
                if !w.exec.alive(w.conns[c].task) && w.conns[c].life == Life::Live {
                    w.note(|| format!("  broker: c{c} {} ends the connection", show(f)));
                    w.conns[c].life = Life::Closed;
                    w.conns[c].ending = true;
                    let out = w.model.closed(c);
                    w.expect(out);
                    continue;
                }
                if crosses_epochs(w, c, f) {
                    // Neither refused nor well-formed: what becomes of it is open.
                    let others = w.conns.iter().any(|x| x.version < 20);
                    if others {
                        return Err(w.problem(false, "open", format!("garbage in {}", show(f))));
                    }
                }
            }
        }
        w.process_event(&ev)?;
    }
    w.deferred = false;
    let r = w.check_quiet(src);
    w.deferred = true;
    r
}

fn connect(w: &mut World, src: &mut Src, attacker: bool) -> Result<usize, Stop> {
    let v = ops::version(src);
    let c = w.connect(v, v == 14 && src.bool(), vec![0])?.expect("broker is running");
    w.conns[c].attacker = attacker;
    Ok(c)
}

fn attack_case(w: &mut World, src: &mut Src) -> Result<(), Stop> {
    let victims = src.range(1, 2);
    let attackers = src.range(1, 2);
    w.deferred = true;
    w.victims_only = true;
    for i in 0..victims + attackers {
        connect(w, src, i >= victims)?;
    }
    serve(w, src)?;
    for _ in 0..src.us(3) {
        for op in PROFILE.setup {
            if src.chance(1, 8) {
                continue;
            }
            let live = w.live();
            let c = *src.pick(&live);
            if let Some(f) = ops::message(w, src, c, *op) {
                w.send(c, f);
            }
            serve(w, src)?;
        }
    }
    let n = src.range(5, 80);
    for _ in 0..n {
        let live = w.live();
        let att: Vec<usize> = live.iter().copied().filter(|c| w.conns[*c].attacker).collect();
        let vic: Vec<usize> = live.iter().copied().filter(|c| !w.conns[*c].attacker).collect();
        match src.weighted(&[8, 4, if att.is_empty() { 6 } else { 0 }, 1]) {
            0 if !att.is_empty() => {
                let c = *src.pick(&att);
                if let Some(mut f) = attack_message(w, src, c) {
                    // Mostly not what ends the case because its outcome is open.
                    if crosses_epochs(w, c, &f) && src.chance(7, 8) {
                        f.value = Some(ops::payload(src, 20));
                    }
                    w.over += 1;
                    w.send(c, f);
                }
            }
            2 if w.conns.len() < 12 => {
                connect(w, src, true)?;
            }
            3 if !att.is_empty() => {
                let c = *src.pick(&att);
                match src.us(2) {
                    0 => w.client_shutdown(c),
                    _ => w.inject(c, 0),
                }
            }
            _ => {
                let c = *src.pick(&vic);
                let op = legal_op(src);
                if let Some(f) = ops::message(w, src, c, op) {
                    w.send(c, f);
                }
            }
        }
        serve(w, src)?;
    }
    Ok(())
}

/// Sends a request and returns the reply with that serial, if it comes.
fn ask(w: &mut World, src: &mut Src, c: usize, f: Frame, want: u8) -> Result<Frame, Stop> {
    let serial = f.fields[0].clone();
    w.send(c, f.clone());
    let got = heard(w, src, c)?;
    match got.iter().find(|g| g.kind == want && g.fields[0] == serial) {
        Some(g) => Ok(g.clone()),
        None => {
            let m = format!("connection {c} asks {} and gets {:?}", show(&f), got.iter().map(show).collect::<Vec<_>>());
            Err(w.problem(true, "not-served", m))
        }
    }
}

/// Everything connection `c` is sent until nothing runs any more.
fn heard(w: &mut World, src: &mut Src, c: usize) -> Result<Vec<Frame>, Stop> {
    w.quiesce(src)?;
    let r = w.conns[c].result.borrow().clone();
    if let Some(r) = r {
        let m = format!("the well-behaved connection {c} ended with {r:?}");
        return Err(w.problem(true, "victim-ended", m));
    }
    let bad = w.conns[c].pipe.borrow_mut().bad.take();
    if let Some(b) = bad {
        return Err(w.problem(true, "bad-frame", b));
    }
    let f: Vec<Frame> = std::mem::take(&mut w.conns[c].pipe.borrow_mut().sent);
    for x in &f {
        w.note(|| format!("  -> c{c} {}", show(x)));
    }
    Ok(f)
}

fn id_of(f: &Frame, n: usize) -> Id {
    match f.fields.get(n) {
        Some(F::I(v)) => *v,
        _ => [0; 16],
    }
}

/// Two well-behaved connections are served correctly.
fn probe(w: &mut World, src: &mut Src, a: usize, b: usize) -> Result<(), Stop> {
    let wrong = |w: &mut World, m: String| Err(w.problem(true, "served-wrong", m));
    heard(w, src, a)?;
    heard(w, src, b)?;
    let base = 0x7000_0000;
    let g = ask(w, src, a, frame(30, vec![F::U(base)]), 31)?;
    if g.fields != [F::U(base)] {
        return wrong(w, format!("Sync is answered by {}", show(&g)));
    }
    let uuid = [0x77; 16];
    let g = ask(w, src, a, frame(3, vec![F::U(base + 1), F::I(uuid)]), 4)?;
    if g.fields[1] != F::D(0) {
        return wrong(w, format!("CreateObject of an unused UUID is answered by {}", show(&g)));
    }
    let obj = id_of(&g, 2);
    let g = ask(w, src, b, frame(3, vec![F::U(base + 2), F::I(uuid)]), 4)?;
    if g.fields[1] != F::D(1) {
        return wrong(w, format!("CreateObject of a used UUID is answered by {}", show(&g)));
    }
    let g = ask(w, src, a, frame(7, vec![F::U(base + 3), F::I(obj), F::I(uuid), F::U(9)]), 8)?;
    if g.fields[1] != F::D(0) {
        return wrong(w, format!("CreateService is answered by {}", show(&g)));
    }
    let svc = id_of(&g, 2);
    w.send(b, frame(13, vec![F::D(1), F::U(base + 4), F::I(svc), F::U(1)]));
    let h = heard(w, src, b)?;
    if !h.iter().any(|f| f.kind == 14 && f.fields == [F::U(base + 4), F::D(0)]) {
        return wrong(w, format!("SubscribeEvent is answered by {:?}", h.iter().map(show).collect::<Vec<_>>()));
    }
    // A call there and back.
    w.send(b, frame_v(11, vec![F::U(base + 5), F::I(svc), F::U(3)], vec![3, 42]));
    let h = heard(w, src, a)?;
    let call = h.iter().find(|f| matches!(f.kind, 11 | 62) && f.fields[1] == F::I(svc)).cloned();
    let Some(call) = call else {
        return wrong(w, format!("a call does not arrive; the callee hears {:?}", h.iter().map(show).collect::<Vec<_>>()));
    };
    if call.value.as_deref() != Some(&[3, 42]) || call.fields[2] != F::U(3) {
        return wrong(w, format!("a call arrives as {}", show(&call)));
    }
    w.send(a, frame_v(12, vec![call.fields[0].clone(), F::D(0)], vec![3, 43]));
    let h = heard(w, src, b)?;
    let r: Vec<&Frame> = h.iter().filter(|f| f.kind == 12 && f.fields[0] == F::U(base + 5)).collect();
    if r.len() != 1 || r[0].fields[1] != F::D(0) || r[0].value.as_deref() != Some(&[3, 43]) {
        return wrong(w, format!("a reply arrives as {:?}", h.iter().map(show).collect::<Vec<_>>()));
    }
    w.send(a, frame_v(16, vec![F::I(svc), F::U(1)], vec![3, 44]));
    let h = heard(w, src, b)?;
    let n = h.iter().filter(|f| f.kind == 16 && f.fields == [F::I(svc), F::U(1)] && f.value.as_deref() == Some(&[3, 44])).count();
    if n != 1 {
        return wrong(w, format!("an event arrives as {:?}", h.iter().map(show).collect::<Vec<_>>()));
    }
    let g = ask(w, src, a, frame(19, vec![F::U(base + 6), F::D(0)]), 20)?;
    let ch = id_of(&g, 1);
    let g = ask(w, src, b, frame(24, vec![F::U(base + 7), F::I(ch), F::D(1), F::U(2)]), 25)?;
    if g.fields[1] != F::D(1) {
        return wrong(w, format!("ClaimChannelEnd is answered by {}", show(&g)));
    }
    heard(w, src, a)?;
    w.send(a, frame_v(27, vec![F::I(ch)], vec![3, 45]));
    let h = heard(w, src, b)?;
    let n = h.iter().filter(|f| f.kind == 28 && f.fields == [F::I(ch)] && f.value.as_deref() == Some(&[3, 45])).count();
    if n != 1 {
        return wrong(w, format!("an item arrives as {:?}", h.iter().map(show).collect::<Vec<_>>()));
    }
    Ok(())
}

/// Everybody at once, no model: panics, hangs, collateral damage, service afterwards.
fn storm_case(w: &mut World, src: &mut Src) -> Result<(), Stop> {
    w.deferred = true;
    let a = connect(w, src, false)?;
    let b = connect(w, src, false)?;
    let n = src.range(1, 4);
    for _ in 0..n {
        connect(w, src, true)?;
    }
    let intro = src.chance(1, 2);
    let len = src.range(20, 200);
    let lag = src.range(1, 8);
    for _ in 0..len {
        // Identifiers are learned from what the clients see.
        for c in 0..w.conns.len() {
            let fs: Vec<Frame> = std::mem::take(&mut w.conns[c].pipe.borrow_mut().sent);
            for f in fs {
                w.note(|| format!("  -> c{c} {}", show(&f)));
                w.learn_id(c, &f);
                if f.kind == 2 && !w.conns[c].attacker {
                    return Err(w.problem(true, "victim-ended", format!("the well-behaved connection {c} is sent Shutdown")));
                }
            }
        }
        let live: Vec<usize> = w.live();
        let att: Vec<usize> = live.iter().copied().filter(|c| w.conns[*c].attacker && w.exec.alive(w.conns[*c].task)).collect();
        let c = if att.is_empty() || src.chance(1, 4) { *src.pick(&[a, b]) } else { *src.pick(&att) };
        let attacker = w.conns[c].attacker;
        let f = if attacker && !src.chance(1, 4) {
            if intro && src.chance(1, 3) {
                intro_message(w, src, c)
            } else if src.bool() {
                Some(hostile(w, src, c))
            } else {
                cunning(w, src, c)
            }
        } else if intro && src.chance(1, 3) {
            let op = *src.pick(&[RegisterIntro, QueryIntro, QueryIntro, ReplyIntro]);
            ops::message(w, src, c, op)
        } else {
            let op = legal_op(src);
            // What depends on the credit or a unique serial is left to the other part.
            if matches!(op, SendItem | Call) && !attacker {
                ops::message(w, src, c, if op == Call { SubEvent } else { Emit })
            } else {
                ops::message(w, src, c, op)
            }
        };
        if let Some(f) = f {
            if w.conns[c].attacker && f.kind == 2 {
                w.client_shutdown(c);
            } else {
                w.send(c, f);
            }
        }
        if src.chance(1, 30) && !att.is_empty() {
            let c = *src.pick(&att);
            match src.us(3) {
                0 => w.inject(c, 0),
                1 => w.exec.drop_task(w.conns[c].task),
                _ => {
                    w.exec.poll(w.broker);
                    w.force(c)?
                }
            }
        }
        if src.chance(1, 12) && w.conns.len() < 14 {
            w.exec.poll(w.broker);
            w.log.borrow_mut().clear();
            connect(w, src, true)?;
        }
        let k = src.us(lag as usize * 2);
        ops::steps(w, src, k)?;
        w.log.borrow_mut().clear();
    }
    w.quiesce(src)?;
    w.log.borrow_mut().clear();
    probe(w, src, a, b)?;
    // Everybody leaves; nothing may be left behind.
    for c in 0..w.conns.len() {
        if w.exec.alive(w.conns[c].task) && !w.conns[c].ending {
            w.client_shutdown(c);
        }
        w.quiesce(src)?;
    }
    for c in 0..w.conns.len() {
        let h = w.conns[c].handle.clone();
        let mut b = w.handle.clone().unwrap();
        w.call_handle(src, async move { b.shutdown_connection(&h).await.is_ok() })?;
    }
    w.stop_broker(true)?;
    w.quiesce(src)?;
    if !*w.broker_done.borrow() {
        return Err(w.problem(true, "broker-does-not-stop", "all connections are gone but the broker does not stop".into()));
    }
    Ok(())
}

fn intro_message(w: &mut World, src: &mut Src, c: usize) -> Option<Frame> {
    let v = w.conns[c].version;
    Some(match src.us(5) {
        0 => return ops::message(w, src, c, RegisterIntro),
        1 => return ops::message(w, src, c, QueryIntro),
        2 => return ops::message(w, src, c, ReplyIntro),
        3 => frame_v(51, vec![F::U(src.below(6) as u32), F::D(src.below(2) as u8)], hostile_value(src, v, 51)),
        _ => {
            // A real query answered by garbage or by somebody else.
            let q: Vec<(usize, u32)> = w.known.intro.clone();
            if q.is_empty() {
                return None;
            }
            let s = src.pick(&q).1;
            frame_v(51, vec![F::U(s), F::D(0)], hostile_value(src, v, 51))
        }
    })
}

/// A newer connection sends payloads, well-formed or not, to where each would have to be re-encoded. What is well-formed
/// arrives; what is not harms nobody but its sender.
fn payload_case(w: &mut World, src: &mut Src) -> Result<u64, Stop> {
    w.deferred = true;
    let old = |src: &mut Src| if src.chance(3, 4) { src.range(14, 19) as u32 } else { 20 };
    let join = |w: &mut World, v: u32, attacker: bool| -> Result<usize, Stop> {
        let c = w.connect(v, false, vec![0])?.expect("broker is running");
        w.conns[c].attacker = attacker;
        Ok(c)
    };
    let (va, vb) = (old(src), old(src));
    let a = join(w, va, false)?;
    let b = join(w, vb, false)?;
    let m = join(w, 20, true)?;
    let wrong = |w: &mut World, t: &'static str, m: String| Err(w.problem(true, t, m));
    let uuid = [0x66; 16];
    let mut svcs = vec![];
    for c in [m, a] {
        let mut id = uuid;
        id[0] = c as u8;
        let g = ask(w, src, c, frame(3, vec![F::U(1), F::I(id)]), 4)?;
        let obj = id_of(&g, 2);
        let g = ask(w, src, c, frame(7, vec![F::U(2), F::I(obj), F::I(id), F::U(9)]), 8)?;
        svcs.push(id_of(&g, 2));
    }
    let (sm, sa) = (svcs[0], svcs[1]);
    for c in [a, b] {
        w.send(c, frame(13, vec![F::D(1), F::U(3), F::I(sm), F::U(1)]));
        heard(w, src, c)?;
    }
    // a sends to m, m sends to b
    let g = ask(w, src, m, frame(19, vec![F::U(4), F::D(0)]), 20)?;
    let to_b = id_of(&g, 1);
    ask(w, src, b, frame(24, vec![F::U(5), F::I(to_b), F::D(1), F::U(8)]), 25)?;
    let calls = src.range(1, 3) as u32;
    let mut serials = vec![];
    heard(w, src, m)?;
    for i in 0..calls {
        w.send(a, frame_v(11, vec![F::U(100 + i), F::I(sm), F::U(3)], vec![3, 42]));
        let h = heard(w, src, m)?;
        let Some(f) = h.iter().find(|f| matches!(f.kind, 11 | 62)) else {
            return wrong(w, "call-lost", format!("a call arrives as {:?}", h.iter().map(show).collect::<Vec<_>>()));
        };
        serials.push((100 + i, f.fields[0].clone()));
    }
    heard(w, src, b)?;
    let mut replied: Vec<u32> = vec![];
    let mut answered = 0;
    let mut ill_sent = 0;
    let mut destroyed = [0; 2];
    for round in 0..src.range(1, 6) as u32 {
        let kind = *src.pick(&[16, 12, 11, 27]);
        let v = hostile_value(src, 20, kind);
        let ill = !matches!(wire::decode_prefix(&v, false), Ok((_, n)) if n == v.len());
        let f = match kind {
            16 => frame_v(16, vec![F::I(sm), F::U(1)], v.clone()),
            12 if answered < serials.len() => {
                let s = serials[answered].1.clone();
                answered += 1;
                frame_v(12, vec![s, F::D(src.below(2) as u8)], v.clone())
            }
            11 => {
                if src.bool() {
                    frame_v(11, vec![F::U(200 + round), F::I(sa), F::U(3)], v.clone())
                } else {
                    frame_v(62, vec![F::U(200 + round), F::I(sa), F::U(3), F::D(0)], v.clone())
                }
            }
            27 => frame_v(27, vec![F::I(to_b)], v.clone()),
            _ => continue,
        };
        ill_sent += ill as u64;
        w.note(|| format!("{} payload:", if ill { "ill-formed" } else { "well-formed" }));
        let reply = f.kind == 12;
        w.send(m, f.clone());
        w.quiesce(src)?;
        let gone = !w.exec.alive(w.conns[m].task);
        if gone && !ill {
            return wrong(w, "closed", format!("the connection is closed because of {}", show(&f)));
        }
        let expect = [
            (a, va, if kind == 16 || kind == 11 { 1 } else { 0 } + reply as usize),
            (b, vb, (kind == 16 || kind == 27) as usize),
        ];
        for (i, (c, ver, n)) in expect.into_iter().enumerate() {
            let h = heard(w, src, c)?;
            let carried: Vec<&Frame> = h
                .iter()
                .filter(|g| matches!(g.kind, 11 | 16 | 28 | 62) || (g.kind == 12 && matches!(g.fields[1], F::D(0 | 1))))
                .collect();
            for g in &carried {
                let x = g.value.as_deref().unwrap_or_default();
                if ill && ver < 20 {
                    return wrong(w, "ill-formed", format!("{} becomes {} for connection {c}, version 1.{ver}", show(&f), show(g)));
                }
                if if ill { x != v } else { !crate::world::payload_ok(&v, 20, x, ver) } {
                    return wrong(w, "payload", format!("{} becomes {} for connection {c}, version 1.{ver}", show(&f), show(g)));
                }
            }
            if !ill && carried.len() != n {
                return wrong(w, "lost", format!("{} is heard by connection {c} as {:?}", show(&f), h.iter().map(show).collect::<Vec<_>>()));
            }
            for g in h.iter().filter(|g| g.kind == 12) {
                let F::U(s) = g.fields[0] else { continue };
                if c != a || replied.contains(&s) || !serials.iter().any(|x| x.0 == s) {
                    return wrong(w, "reply", format!("connection {c} gets {}", show(g)));
                }
                replied.push(s);
            }
            destroyed[i] += h.iter().filter(|g| g.kind == 32).count();
        }
        if gone {
            break;
        }
    }
    if !w.exec.alive(w.conns[m].task) {
        let open: Vec<u32> = serials.iter().map(|x| x.0).filter(|s| !replied.contains(s)).collect();
        if !open.is_empty() {
            return wrong(w, "call-unanswered", format!("calls {open:?} are never answered although the callee is gone"));
        }
        for (i, (c, v)) in [(a, va), (b, vb)].into_iter().enumerate() {
            if destroyed[i] != 1 {
                return wrong(w, "not-told", format!("connection {c}, version 1.{v}, hears {} times that the service is gone", destroyed[i]));
            }
        }
    }
    w.log.borrow_mut().clear();
    probe(w, src, a, b)?;
    Ok(ill_sent)
}

fn payloads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(ALL_KINDS, ctx.want_desc);
    let r = payload_case(&mut w, src);
    if let Ok(n) = &r {
        ctx.count_n("ill-formed payloads", *n);
        ctx.count("cases to the end");
    }
    ctx.nontrivial = true;
    if ctx.want_desc {
        let t = w.trace.join("\n");
        ctx.describe(|| t);
    }
    settle(r.map(|_| ()))
}

const LABELS: &[(u8, &str)] = &[(12, "replies delivered"), (16, "events delivered"), (28, "items delivered"), (44, "bus events")];

fn attacks(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(ALL_KINDS, ctx.want_desc);
    let r = attack_case(&mut w, src);
    let closed = w.conns.iter().filter(|c| c.attacker && c.life == Life::Closed).count() as u64;
    ctx.nontrivial = w.over >= 5;
    ctx.count_n("messages of attackers", w.over);
    ctx.count_n("attackers closed", closed);
    finish_case(&mut w, ctx, LABELS, r)
}

fn storms(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(ALL_KINDS, ctx.want_desc);
    let r = storm_case(&mut w, src);
    ctx.nontrivial = true;
    if ctx.want_desc {
        let t = w.trace.join("\n");
        ctx.describe(|| t);
    }
    settle(r)
}

pub fn property() -> Property {
    Property {
        id: "C11",
        level: "exploration",
        rule: "attackers send at least five messages (attacks); every storm",
        assumptions: &[
            "messages of attackers are well-formed frames; their payloads may be arbitrary bytes",
            "whether an attacker is answered, ignored or closed is observed and then drives the reference model of what the others see",
            "the reference model in harness/bus/src/model.rs",
        ],
        parts: vec![
            Part::new("attacks", Kind::Random(150_000, 4_000_000), attacks).fresh().secs(30, 900),
            Part::new("storms", Kind::Random(60_000, 2_000_000), storms).fresh().secs(20, 600),
            Part::new("payloads", Kind::Random(40_000, 1_000_000), payloads).fresh().secs(20, 600),
        ],
    }
}
