//! Generated operations of raw clients and generated schedules.
use crate::model::{End, Id, Sym};
use crate::msgs::{Frame, F};
use crate::world::{frame, frame_v, Life, Stop, World};
use vp::wire::{self, Epoch};
use vp::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    CreateObject,
    DestroyObject,
    CreateService,
    DestroyService,
    Call,
    Reply,
    Abort,
    SubEvent,
    UnsubEvent,
    Emit,
    SubAll,
    UnsubAll,
    SubSvc,
    UnsubSvc,
    QueryVersion,
    QueryInfo,
    CreateChan,
    ClaimChan,
    CloseChan,
    SendItem,
    SendBurst,
    OverSend,
    AddCap,
    CreateLis,
    DestroyLis,
    AddFilter,
    RemoveFilter,
    ClearFilters,
    StartLis,
    StopLis,
    Sync,
    RegisterIntro,
    QueryIntro,
    ReplyIntro,
    Connect,
    Shutdown,
    Error,
    Force,
    Drop,
    Stall,
    Unstall,
    Quiesce,
    Probe,
    Snapshot,
    /// A message the negotiated version does not have.
    Gated,
}

pub struct Profile {
    pub conns: (usize, usize),
    pub max_conns: usize,
    pub len: (usize, usize),
    pub ops: &'static [(Op, u64)],
    /// Something to talk about, mostly done before the schedule gets wild.
    pub setup: &'static [Op],
}

pub fn garbage_id(src: &mut Src) -> Id {
    let mut v = [0xEE; 16];
    v[0] = src.byte();
    v[15] = 0xEE;
    v
}

pub fn uuid_of(n: usize) -> Id {
    let mut v = [0x11; 16];
    v[0] = n as u8;
    v[15] = 0xA0 + n as u8;
    v
}

/// The uuids of objects, services and types: three, or many in a wide history.
fn some_uuid(w: &World, src: &mut Src) -> Id {
    uuid_of(src.us(if w.wide { 14 } else { 3 }))
}

fn some_event(w: &World, src: &mut Src, n: u64) -> u32 {
    src.below(if w.wide { 10 } else { n }) as u32
}

pub fn version(src: &mut Src) -> u32 {
    *src.pick(&[20u32, 14, 19, 18, 17, 16, 15, 20, 20, 19])
}

/// A non-empty payload as a client of the given version may send it.
pub fn payload(src: &mut Src, version: u32) -> Vec<u8> {
    let n = match src.us(5) {
        0 => wire::N::U32(src.below(1000) as u32),
        1 => {
            let d = src.range(1, 4);
            wire::gen_chain(src, d)
        }
        2 => wire::gen_leaf(src),
        _ => {
            let mut budget = 12;
            let d = src.range(2, 5);
            wire::gen_value(src, d, &mut budget)
        }
    };
    let e = if version < 20 { Epoch::V1 } else { *src.pick(&[Epoch::V2, Epoch::V2, Epoch::Mixed, Epoch::V1]) };
    wire::encode(src, &n, e, false)
}

fn sym_id(w: &World, s: Sym) -> Option<Id> {
    w.model.ids[s]
}

fn pick_id(w: &World, src: &mut Src, mine: &[Id], live: &[Id], all: &[Id], w_mine: u64) -> Id {
    let lists = [mine, live, all];
    if w.wide && src.bool() {
        // Much of everything with the same one.
        if let Some(id) = lists[src.us(2)].first() {
            return *id;
        }
    }
    let ws: Vec<u64> = lists.iter().zip([w_mine, 6, 2]).map(|(l, w)| if l.is_empty() { 0 } else { w }).collect();
    let k = src.weighted(&[ws[0], ws[1], ws[2], 1]);
    if k == 3 {
        return garbage_id(src);
    }
    *src.pick(lists[k])
}

pub fn any_obj(w: &World, src: &mut Src, c: usize, w_mine: u64) -> Id {
    let live: Vec<Id> = w.model.objs.keys().filter_map(|s| sym_id(w, *s)).collect();
    let mine: Vec<Id> = w.model.objs.iter().filter(|x| x.1.owner == c).filter_map(|x| sym_id(w, *x.0)).collect();
    let all: Vec<Id> = w.known.objs.iter().map(|x| x.1).collect();
    pick_id(w, src, &mine, &live, &all, w_mine)
}

pub fn any_svc(w: &World, src: &mut Src, c: usize, w_mine: u64) -> Id {
    let live: Vec<Id> = w.model.svcs.keys().filter_map(|s| sym_id(w, *s)).collect();
    let mine: Vec<Id> = w.model.svcs.iter().filter(|x| x.1.owner == c).filter_map(|x| sym_id(w, *x.0)).collect();
    let all: Vec<Id> = w.known.svcs.iter().map(|x| x.1).collect();
    pick_id(w, src, &mine, &live, &all, w_mine)
}

/// A service to which `c` has some subscription, if there is one.
fn subscribed_svc(w: &World, src: &mut Src, c: usize) -> Option<Id> {
    let v: Vec<Id> = w
        .model
        .svcs
        .iter()
        .filter(|(_, v)| v.all.contains(&c) || v.subs.contains(&c) || v.events.values().any(|m| m.contains(&c)))
        .filter_map(|x| sym_id(w, *x.0))
        .collect();
    if v.is_empty() {
        None
    } else {
        Some(*src.pick(&v))
    }
}

fn any_chan(w: &World, src: &mut Src, c: usize, want: fn(&[End; 2], usize) -> bool) -> Id {
    let live: Vec<Id> = w.model.chans.keys().filter_map(|s| sym_id(w, *s)).collect();
    let mine: Vec<Id> =
        w.model.chans.iter().filter(|(_, ch)| want(&ch.ends, c)).filter_map(|x| sym_id(w, *x.0)).collect();
    pick_id(w, src, &mine, &live, &w.known.chans.clone(), 12)
}

fn any_lis(w: &World, src: &mut Src, c: usize) -> Id {
    let live: Vec<Id> = w.model.lis.keys().filter_map(|s| sym_id(w, *s)).collect();
    let mine: Vec<Id> = w.model.lis.iter().filter(|x| x.1.owner == c).filter_map(|x| sym_id(w, *x.0)).collect();
    let all: Vec<Id> = w.known.lis.iter().map(|x| x.1).collect();
    pick_id(w, src, &mine, &live, &all, 25)
}

pub fn capacity(src: &mut Src) -> u32 {
    *src.pick(&[1u32, 2, 3, 4, 5, 0, 6, 7, 8, 9, 10, 16, 100, u32::MAX, u32::MAX - 1, 0x8000_0000])
}

fn filter(w: &World, src: &mut Src) -> Vec<F> {
    let o = F::I(some_uuid(w, src));
    let s = F::I(some_uuid(w, src));
    match src.us(6) {
        0 => vec![F::D(0)],
        1 => vec![F::D(1), o],
        2 => vec![F::D(2)],
        3 => vec![F::D(3), o],
        4 => vec![F::D(4), s],
        _ => vec![F::D(5), o, s],
    }
}

fn serial(w: &mut World, src: &mut Src, c: usize) -> F {
    let k = &mut w.conns[c];
    k.next_serial += 1;
    F::U(if src.chance(1, 4) { src.int(32) as u32 } else { k.next_serial })
}

fn call_serial(w: &World, src: &mut Src, c: usize) -> u32 {
    let p = &w.conns[c].pending_calls;
    // Small numbers, so that serials are reused a lot.
    let mut s = if src.chance(1, 8) { *src.pick(&[u32::MAX, u32::MAX - 1, 0x8000_0000]) } else { src.below(5) as u32 };
    while p.contains(&s) {
        s = s.wrapping_add(1);
    }
    s
}

pub fn service_info(src: &mut Src, version: u32) -> Vec<u8> {
    let i = (
        src.below(4) as u32,
        if src.chance(1, 3) { Some(uuid_of(src.us(3))) } else { None },
        match src.us(4) {
            0 => None,
            1 => Some(false),
            _ => Some(true),
        },
    );
    let n = crate::model::info_tree(&i);
    wire::encode_canonical(&n, if version < 20 { Epoch::V1 } else { Epoch::V2 })
}

/// A message that fits the state as well as possible.
pub fn fitting(w: &World, src: &mut Src, c: usize, kind: u8) -> Frame {
    let v = w.conns[c].version;
    let mut f = crate::msgs::gen_frame_of(src, kind as usize);
    let mut n = 0;
    for i in 0..f.fields.len() {
        match f.fields[i] {
            F::I(_) => {
                f.fields[i] = F::I(match kind {
                    52 if n == 0 => any_obj(w, src, c, 20),
                    52 | 49..=51 => uuid_of(src.us(3)),
                    _ => any_svc(w, src, c, 8),
                });
                n += 1;
            }
            F::U(_) => {
                let p = &w.conns[c].pending_calls;
                f.fields[i] = F::U(match p.first() {
                    Some(s) if kind == 48 => *s,
                    _ => src.below(5) as u32,
                })
            }
            F::D(_) => {}
        }
    }
    if f.value.is_some() {
        f.value = Some(match kind {
            49 => {
                let n = src.us(3);
                let set = (0..n).map(|_| wire::K::Uuid(uuid_of(src.us(4)))).collect();
                wire::encode_canonical(&wire::N::Set(9, set), if v < 20 { Epoch::V1 } else { Epoch::V2 })
            }
            52 => service_info(src, v),
            _ => payload(src, v),
        });
    }
    f
}

/// The message for an operation, or nothing if it makes no sense for that client now.
pub fn message(w: &mut World, src: &mut Src, c: usize, op: Op) -> Option<Frame> {
    let v = w.conns[c].version;
    Some(match op {
        Op::CreateObject => {
            let s = serial(w, src, c);
            frame(3, vec![s, F::I(some_uuid(w, src))])
        }
        Op::DestroyObject => {
            let s = serial(w, src, c);
            frame(5, vec![s, F::I(any_obj(w, src, c, 8))])
        }
        Op::CreateService => {
            let s = serial(w, src, c);
            let o = F::I(any_obj(w, src, c, 25));
            let u = F::I(some_uuid(w, src));
            if v >= 17 && src.chance(3, 4) {
                frame_v(52, vec![s, o, u], service_info(src, v))
            } else {
                frame(7, vec![s, o, u, F::U(src.below(5) as u32)])
            }
        }
        Op::DestroyService => {
            let s = serial(w, src, c);
            frame(9, vec![s, F::I(any_svc(w, src, c, 8))])
        }
        Op::Call => {
            let s = F::U(call_serial(w, src, c));
            let svc = F::I(any_svc(w, src, c, 4));
            let f = F::U(src.int(32) as u32);
            let p = payload(src, v);
            if v >= 19 && src.chance(3, 4) {
                let mut x = vec![s, svc, f];
                if src.bool() {
                    x.extend([F::D(1), F::U(src.int(32) as u32)]);
                } else {
                    x.push(F::D(0));
                }
                frame_v(62, x, p)
            } else {
                frame_v(11, vec![s, svc, f], p)
            }
        }
        Op::Reply => {
            let mine: Vec<u32> = w.known.calls.iter().filter(|x| x.0 == c).map(|x| x.1).collect();
            let other: Vec<u32> = w.known.calls.iter().filter(|x| x.0 != c).map(|x| x.1).collect();
            let s = match src.weighted(&[
                if mine.is_empty() { 0 } else { 12 },
                if other.is_empty() { 0 } else { 3 },
                1,
            ]) {
                0 => {
                    let k = src.us(mine.len().min(6));
                    mine[mine.len() - 1 - k]
                }
                1 => *src.pick(&other),
                _ => 0x8000_0000 | src.below(100) as u32,
            };
            let r = src.weighted(&[4, 2, 1, 1, 1, 1]) as u8;
            let p = if r <= 1 { payload(src, v) } else { vec![0] };
            frame_v(12, vec![F::U(s), F::D(r)], p)
        }
        Op::Abort => {
            if v < 16 {
                return None;
            }
            let p: Vec<u32> = w.conns[c].pending_calls.iter().copied().collect();
            let s = if p.is_empty() || src.chance(1, 8) { src.below(6) as u32 } else { *src.pick(&p) };
            frame(48, vec![F::U(s)])
        }
        Op::SubEvent => {
            let s = serial(w, src, c);
            let F::U(s) = s else { unreachable!() };
            frame(13, vec![F::D(1), F::U(s), F::I(any_svc(w, src, c, 2)), F::U(some_event(w, src, 3))])
        }
        Op::UnsubEvent => {
            let svc = subscribed_svc(w, src, c);
            let svc = match svc {
                Some(s) if src.chance(3, 4) => s,
                _ => any_svc(w, src, c, 2),
            };
            frame(15, vec![F::I(svc), F::U(some_event(w, src, 3))])
        }
        Op::Emit => {
            let svc = any_svc(w, src, c, 20);
            let p = payload(src, v);
            frame_v(16, vec![F::I(svc), F::U(some_event(w, src, 4))], p)
        }
        Op::SubAll => {
            if v < 18 {
                return None;
            }
            let s = serial(w, src, c);
            frame(58, vec![F::D(1), s, F::I(any_svc(w, src, c, 2))])
        }
        Op::UnsubAll => {
            if v < 18 {
                return None;
            }
            let svc = match subscribed_svc(w, src, c) {
                Some(s) if src.chance(3, 4) => s,
                _ => any_svc(w, src, c, 2),
            };
            if src.chance(3, 4) {
                let s = serial(w, src, c);
                frame(60, vec![F::D(1), s, F::I(svc)])
            } else {
                frame(60, vec![F::D(0), F::I(svc)])
            }
        }
        Op::Gated => {
            let k: Vec<u8> = [48u8, 49, 50, 51, 52, 53, 55, 57, 58, 60, 62]
                .into_iter()
                .filter(|k| crate::model::min_version(*k) > v)
                .collect();
            if k.is_empty() {
                return None;
            }
            let k = *src.pick(&k);
            fitting(w, src, c, k)
        }
        Op::SubSvc => {
            if v < 18 {
                return None;
            }
            let s = serial(w, src, c);
            frame(55, vec![s, F::I(any_svc(w, src, c, 2))])
        }
        Op::UnsubSvc => {
            if v < 18 {
                return None;
            }
            let svc = match subscribed_svc(w, src, c) {
                Some(s) if src.chance(3, 4) => s,
                _ => any_svc(w, src, c, 2),
            };
            frame(57, vec![F::I(svc)])
        }
        Op::QueryVersion => {
            let s = serial(w, src, c);
            frame(17, vec![s, F::I(any_svc(w, src, c, 2))])
        }
        Op::QueryInfo => {
            if v < 17 {
                return None;
            }
            let s = serial(w, src, c);
            frame(53, vec![s, F::I(any_svc(w, src, c, 2))])
        }
        Op::CreateChan => {
            let s = serial(w, src, c);
            if src.bool() {
                frame(19, vec![s, F::D(0)])
            } else {
                frame(19, vec![s, F::D(1), F::U(capacity(src))])
            }
        }
        Op::ClaimChan => {
            let s = serial(w, src, c);
            let id = any_chan(w, src, c, |e, _| e.contains(&End::Unclaimed));
            // Mostly the unclaimed end.
            let un = w.model.syms.get(&id).and_then(|s| w.model.chans.get(s)).map(|ch| ch.ends[0] == End::Unclaimed);
            let sender = match un {
                Some(x) if src.chance(5, 6) => x,
                _ => src.bool(),
            };
            if sender {
                frame(24, vec![s, F::I(id), F::D(0)])
            } else {
                frame(24, vec![s, F::I(id), F::D(1), F::U(capacity(src))])
            }
        }
        Op::CloseChan => {
            let s = serial(w, src, c);
            let id = any_chan(w, src, c, |e, c| e.contains(&End::Claimed(c)));
            frame(21, vec![s, F::I(id), F::D(src.below(2) as u8)])
        }
        Op::SendItem => {
            let id = any_chan(w, src, c, |e, c| e[0] == End::Claimed(c) && matches!(e[1], End::Claimed(_)));
            item(w, src, c, id)?
        }
        Op::AddCap => {
            let id = any_chan(w, src, c, |e, c| e[1] == End::Claimed(c));
            frame(29, vec![F::I(id), F::U(capacity(src))])
        }
        Op::CreateLis => {
            let s = serial(w, src, c);
            frame(33, vec![s])
        }
        Op::DestroyLis => {
            let s = serial(w, src, c);
            frame(35, vec![s, F::I(any_lis(w, src, c))])
        }
        Op::AddFilter => {
            let mut x = vec![F::I(any_lis(w, src, c))];
            x.extend(filter(w, src));
            frame(37, x)
        }
        Op::RemoveFilter => {
            let id = any_lis(w, src, c);
            let mut x = vec![F::I(id)];
            let have: Vec<(u8, Id, Id)> = w
                .model
                .syms
                .get(&id)
                .and_then(|s| w.model.lis.get(s))
                .map(|l| l.filters.iter().copied().collect())
                .unwrap_or_default();
            if !have.is_empty() && src.chance(3, 4) {
                let (d, o, s) = *src.pick(&have);
                x.push(F::D(d));
                match d {
                    0 | 2 => {}
                    1 | 3 => x.push(F::I(o)),
                    4 => x.push(F::I(s)),
                    _ => x.extend([F::I(o), F::I(s)]),
                }
            } else {
                x.extend(filter(w, src));
            }
            frame(38, x)
        }
        Op::ClearFilters => frame(39, vec![F::I(any_lis(w, src, c))]),
        Op::StartLis => {
            let s = serial(w, src, c);
            frame(40, vec![s, F::I(any_lis(w, src, c)), F::D(src.below(3) as u8)])
        }
        Op::StopLis => {
            let s = serial(w, src, c);
            frame(42, vec![s, F::I(any_lis(w, src, c))])
        }
        Op::Sync => {
            let s = serial(w, src, c);
            frame(30, vec![s])
        }
        Op::RegisterIntro => {
            if v < 17 {
                return None;
            }
            let n = src.range(0, if w.wide { 12 } else { 3 });
            let d = if w.wide { 14 } else { 4 };
            let set = (0..n).map(|_| wire::K::Uuid(uuid_of(src.us(d)))).collect();
            let n = wire::N::Set(9, set);
            let e = if v < 20 { Epoch::V1 } else { Epoch::V2 };
            frame_v(49, vec![], wire::encode_canonical(&n, e))
        }
        Op::QueryIntro => {
            if v < 17 {
                return None;
            }
            let s = serial(w, src, c);
            frame(50, vec![s, F::I(uuid_of(src.us(if w.wide { 14 } else { 4 })))])
        }
        Op::ReplyIntro => {
            let i = w.known.intro.iter().position(|x| x.0 == c)?;
            let (_, s) = w.known.intro.remove(i);
            if src.chance(2, 3) {
                let p = payload(src, v);
                frame_v(51, vec![F::U(s), F::D(0)], p)
            } else {
                frame_v(51, vec![F::U(s), F::D(1)], vec![0])
            }
        }
        _ => return None,
    })
}

/// An item within the credit the client has seen, or on a channel where it has no business.
fn item(w: &mut World, src: &mut Src, c: usize, id: Id) -> Option<Frame> {
    let p = payload(src, w.conns[c].version);
    if let Some(s) = w.model.syms.get(&id).copied() {
        let ch = w.model.chans.get(&s).or(w.model.dead_chans.get(&s))?;
        // A client can only be the sender of this channel (now or soon) if the model knows it or
        // its claim is still under way; in the latter case nothing must be sent.
        if ch.sender == Some(c) {
            let out = w.items_out.entry(s).or_default();
            if ch.announced <= *out {
                return None;
            }
            *out += 1;
        } else if ch.ends[0] == End::Unclaimed {
            return None;
        }
    }
    Some(frame_v(27, vec![F::I(id)], p))
}

/// Some steps of the schedule.
pub fn steps(w: &mut World, src: &mut Src, n: usize) -> Result<(), Stop> {
    for _ in 0..n {
        let ready = w.exec.ready();
        if ready.is_empty() {
            break;
        }
        let t = *src.pick(&ready);
        w.step(t)?;
    }
    Ok(())
}

/// A client for which the operation mostly makes sense.
fn pick_client(w: &World, src: &mut Src, op: Op, live: &[usize]) -> usize {
    let m = &w.model;
    let mut fit: Vec<usize> = match op {
        Op::DestroyObject | Op::CreateService => m.objs.values().map(|o| o.owner).collect(),
        Op::DestroyService | Op::Emit => m.svcs.values().map(|o| o.owner).collect(),
        Op::DestroyLis | Op::AddFilter | Op::RemoveFilter | Op::ClearFilters | Op::StartLis | Op::StopLis => {
            m.lis.values().map(|o| o.owner).collect()
        }
        Op::Reply => m.calls.values().map(|o| o.owner).collect(),
        Op::Abort => live.iter().copied().filter(|c| !w.conns[*c].pending_calls.is_empty()).collect(),
        Op::UnsubEvent => m.svcs.values().flat_map(|v| v.events.values().flatten().copied()).collect(),
        Op::UnsubAll => m.svcs.values().flat_map(|v| v.all.iter().copied()).collect(),
        Op::UnsubSvc => m.svcs.values().flat_map(|v| v.subs.iter().copied()).collect(),
        Op::SendItem => m
            .chans
            .values()
            .filter_map(|ch| match ch.ends {
                [End::Claimed(a), End::Claimed(_)] => Some(a),
                _ => None,
            })
            .collect(),
        Op::AddCap => m
            .chans
            .values()
            .filter_map(|ch| match ch.ends[1] {
                End::Claimed(a) => Some(a),
                _ => None,
            })
            .collect(),
        _ => Vec::new(),
    };
    fit.retain(|c| live.contains(c));
    if w.wide && matches!(op, Op::CreateObject | Op::CreateLis | Op::RegisterIntro | Op::Call) && src.bool() {
        return live[0];
    }
    if !fit.is_empty() && src.chance(5, 6) {
        *src.pick(&fit)
    } else {
        *src.pick(live)
    }
}

pub fn apply(w: &mut World, src: &mut Src, p: &Profile, op: Op) -> Result<(), Stop> {
    let live = w.live();
    match op {
        Op::Connect => {
            let (max, total) = if w.wide { (p.max_conns.max(10), 24) } else { (p.max_conns, 14) };
            if live.len() >= max || w.conns.len() >= total || w.model.shutdown_idle {
                return Ok(());
            }
            let v = version(src);
            w.connect(v, v == 14 && src.bool(), vec![0])?;
            return Ok(());
        }
        Op::Quiesce => return w.quiesce(src),
        Op::Probe => return w.probe(false),
        Op::Snapshot => return w.probe(true),
        _ => {}
    }
    if live.is_empty() {
        return Ok(());
    }
    let c = pick_client(w, src, op, &live);
    match op {
        Op::Shutdown => w.client_shutdown(c),
        Op::Error => {
            let how = src.us(3);
            w.inject(c, how);
        }
        Op::Force => w.force(c)?,
        Op::Drop => w.drop_conn(c)?,
        Op::Stall => w.conns[c].pipe.borrow_mut().set_stalled(true),
        Op::Unstall => {
            for c in 0..w.conns.len() {
                w.conns[c].pipe.borrow_mut().set_stalled(false);
            }
        }
        Op::SendBurst => {
            // As many items as the credit allows, possibly with the receiver replenishing.
            let chans: Vec<(Sym, usize)> = w
                .model
                .chans
                .iter()
                .filter_map(|(s, ch)| match ch.ends {
                    [End::Claimed(a), End::Claimed(b)] if live.contains(&a) && live.contains(&b) => Some((*s, a)),
                    _ => None,
                })
                .collect();
            if chans.is_empty() {
                return Ok(());
            }
            let (s, a) = *src.pick(&chans);
            let Some(id) = w.model.ids[s] else { return Ok(()) };
            let n = src.range(1, 12);
            for _ in 0..n {
                let Some(f) = item(w, src, a, id) else { break };
                w.send(a, f);
                let k = src.us(3);
                steps(w, src, k)?;
            }
        }
        Op::OverSend => {
            w.quiesce(src)?;
            let c: Vec<(Sym, usize)> = w
                .model
                .chans
                .iter()
                .filter_map(|(s, ch)| match ch.ends {
                    [End::Claimed(a), _] if ch.announced <= ch.sent && w.live().contains(&a) => Some((*s, a)),
                    _ => None,
                })
                .collect();
            if c.is_empty() {
                return Ok(());
            }
            let (s, a) = *src.pick(&c);
            let Some(id) = w.model.ids[s] else { return Ok(()) };
            let p = payload(src, w.conns[a].version);
            w.over += 1;
            w.send(a, frame_v(27, vec![F::I(id)], p));
            w.quiesce(src)?;
        }
        op => {
            if let Some(f) = message(w, src, c, op) {
                w.send(c, f);
            }
        }
    }
    Ok(())
}

/// Connects the first clients and runs a random history under a random schedule. Ends at an
/// arbitrary point (not quiescent).
pub fn history(w: &mut World, src: &mut Src, p: &Profile) -> Result<(), Stop> {
    // Few of everything, or now and then many.
    w.wide = src.chance(1, 16);
    let n = if w.wide { src.range(6, 10) } else { src.range(p.conns.0, p.conns.1) };
    for _ in 0..n {
        let v = version(src);
        w.connect(v, v == 14 && src.bool(), vec![0])?;
    }
    let len = if w.wide { src.range(p.len.1, 3 * p.len.1) } else { src.range(p.len.0, p.len.1) };
    let weights: Vec<u64> = p.ops.iter().map(|x| x.1).collect();
    // How far the broker and the connections lag behind the clients.
    let mode = src.us(4);
    let rounds = if w.wide { src.range(2, 12) } else { src.us(4) };
    for _ in 0..rounds {
        for op in p.setup {
            if !src.chance(1, 8) {
                apply(w, src, p, *op)?;
                w.quiesce(src)?;
            }
        }
    }
    for _ in 0..len {
        let op = p.ops[src.weighted(&weights)].0;
        apply(w, src, p, op)?;
        match mode {
            0 => w.quiesce(src)?,
            1 => {
                let k = src.us(6);
                steps(w, src, k)?;
                if src.chance(1, 4) {
                    w.quiesce(src)?;
                }
            }
            2 => {
                let k = src.us(4);
                steps(w, src, k)?;
                if src.chance(1, 12) {
                    w.quiesce(src)?;
                }
            }
            _ => {
                if src.chance(1, 3) {
                    let k = src.us(12);
                    steps(w, src, k)?;
                }
                if src.chance(1, 20) {
                    w.quiesce(src)?;
                }
            }
        }
        if src.chance(1, 8) {
            w.answer_shutdowns();
        }
    }
    Ok(())
}

/// Everybody leaves; used after the comparison at the end of a history.
pub fn finish(w: &mut World, src: &mut Src) -> Result<(), Stop> {
    w.check_quiet(src)?;
    w.answer_shutdowns();
    w.check_quiet(src)?;
    Ok(())
}

#[allow(dead_code)]
pub fn is_over(l: Life) -> bool {
    !matches!(l, Life::Live)
}
