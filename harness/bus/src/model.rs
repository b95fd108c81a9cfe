//! Reference model of the broker at the level of protocol messages.
//!
//! The model consumes the events in the order in which they reached the broker's queue and produces
//! for every connection the messages it must see. Messages caused by one event form a bag (their
//! order is free except where a property fixes it); bags of different events are ordered.
use crate::msgs::{Frame, F};
use crate::sim::Ev;
use std::collections::{BTreeMap, BTreeSet};
use vp::wire::{self, N};

pub type Id = [u8; 16];
pub type Sym = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    U(u32),
    AnyU,
    /// Broker-chosen serial of a call, as seen by the callee.
    Serial(usize),
    /// Credit announced to the owner of a channel's sending end.
    Credit(Sym),
    I(Id),
    Sym(Sym),
    D(u8),
    OneOf(&'static [u8]),
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    None,
    /// Payload given by a peer of the given minor version.
    Payload(Vec<u8>, u32),
    Tree(N),
    Any,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub kind: u8,
    pub fields: Vec<P>,
    pub value: V,
    pub optional: bool,
}

#[derive(Clone, Debug, Default)]
pub struct MConn {
    pub version: u32,
    /// Known to the broker.
    pub alive: bool,
    /// The connection task is gone; sends to it fail.
    pub dropped: bool,
    pub calls: BTreeMap<u32, usize>,
}

#[derive(Clone, Debug)]
pub struct MObj {
    pub uuid: Id,
    pub owner: usize,
}

#[derive(Clone, Debug)]
pub struct MSvc {
    pub obj: Sym,
    pub uuid: Id,
    pub owner: usize,
    pub info: (u32, Option<Id>, Option<bool>),
    pub events: BTreeMap<u32, BTreeSet<usize>>,
    pub all: BTreeSet<usize>,
    pub subs: BTreeSet<usize>,
}

#[derive(Clone, Debug)]
pub struct MCall {
    pub caller: usize,
    pub cserial: u32,
    pub svc: Sym,
    pub owner: usize,
    pub aborted: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Unclaimed,
    Claimed(usize),
    Closed,
}

#[derive(Clone, Debug)]
pub struct MChan {
    pub ends: [End; 2],
    /// Granted by the receiver and not used up.
    pub granted: u64,
    /// Announced to the sender (observed) in total.
    pub announced: u64,
    /// Items accepted from the sender.
    pub sent: u64,
    pub sender: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct MLis {
    pub owner: usize,
    pub filters: BTreeSet<(u8, Id, Id)>,
    pub scope: Option<u8>,
}

#[derive(Default)]
pub struct Model {
    pub conns: Vec<MConn>,
    pub objs: BTreeMap<Sym, MObj>,
    pub svcs: BTreeMap<Sym, MSvc>,
    pub calls: BTreeMap<usize, MCall>,
    pub chans: BTreeMap<Sym, MChan>,
    /// Channels that are gone (their ledger is kept for messages in flight).
    pub dead_chans: BTreeMap<Sym, MChan>,
    pub lis: BTreeMap<Sym, MLis>,
    /// Real ids of symbols and back.
    pub ids: Vec<Option<Id>>,
    pub syms: BTreeMap<Id, Sym>,
    /// (callee, serial) -> call; call -> serial.
    pub serials: BTreeMap<(usize, u32), usize>,
    pub serial_of: BTreeMap<usize, u32>,
    next_call: usize,
    /// Produced by the current event: (phase, connection, message).
    out: Vec<(u8, usize, Exp)>,
    phase: u8,
    pending_remove: Vec<usize>,
    /// Deferred: bus events in their order.
    bus: Vec<(u8, Vec<P>, Id, Id)>,
    /// Must be closed by the broker because of the event.
    pub must_close: Vec<usize>,
    pub shutdown_idle: bool,
    pub shutdown: bool,
    pub error: Option<String>,
}

fn u(f: &F) -> u32 {
    match f {
        F::U(v) => *v,
        f => panic!("{f:?}"),
    }
}
fn id(f: &F) -> Id {
    match f {
        F::I(v) => *v,
        f => panic!("{f:?}"),
    }
}
fn d(f: &F) -> u8 {
    match f {
        F::D(v) => *v,
        f => panic!("{f:?}"),
    }
}

pub fn min_version(kind: u8) -> u32 {
    match kind {
        46 | 47 => 14,
        48 => 16,
        49..=54 => 17,
        55..=61 => 18,
        62 => 19,
        _ => 14,
    }
}

/// Kinds only the broker sends (or that belong to the handshake).
pub fn wrong_direction(kind: u8) -> bool {
    matches!(
        kind,
        0 | 1 | 4 | 6 | 8 | 10 | 14 | 18 | 20 | 22 | 23 | 25 | 26 | 28 | 31 | 32 | 34 | 36 | 41 | 43 | 44 | 45 | 46
            | 47 | 54 | 56 | 59 | 61
    )
}

pub fn info_tree(i: &(u32, Option<Id>, Option<bool>)) -> N {
    let mut m = BTreeMap::new();
    m.insert(0, N::U32(i.0));
    if let Some(t) = i.1 {
        m.insert(1, N::Some(Box::new(N::Uuid(t))));
    }
    if let Some(s) = i.2 {
        m.insert(2, N::Some(Box::new(N::Bool(s))));
    }
    N::Struct(m)
}

/// The service info a well-formed value means.
pub fn info_of(b: &[u8]) -> Option<(u32, Option<Id>, Option<bool>)> {
    let (n, used) = wire::decode_prefix(b, true).ok()?;
    if used != b.len() {
        return None;
    }
    let N::Struct(m) = n else { return None };
    let N::U32(v) = m.get(&0)? else { return None };
    let t = match m.get(&1) {
        None | Some(N::None) => None,
        Some(N::Some(x)) => match **x {
            N::Uuid(t) => Some(t),
            _ => return None,
        },
        _ => return None,
    };
    let s = match m.get(&2) {
        None | Some(N::None) => None,
        Some(N::Some(x)) => match **x {
            N::Bool(t) => Some(t),
            _ => return None,
        },
        _ => return None,
    };
    Some((*v, t, s))
}

pub fn matches_filter(f: &(u8, Id, Id), service: bool, obj: &Id, svc: &Id) -> bool {
    match f.0 {
        0 => !service,
        1 => !service && f.1 == *obj,
        2 => service,
        3 => service && f.1 == *obj,
        4 => service && f.2 == *svc,
        _ => service && f.1 == *obj && f.2 == *svc,
    }
}

pub fn filter_of(fields: &[F]) -> (u8, Id, Id) {
    let z = [0; 16];
    match d(&fields[0]) {
        0 => (0, z, z),
        1 => (1, id(&fields[1]), z),
        2 => (2, z, z),
        3 => (3, id(&fields[1]), z),
        4 => (4, z, id(&fields[1])),
        _ => (5, id(&fields[1]), id(&fields[2])),
    }
}

impl Model {
    fn sym(&mut self) -> Sym {
        self.ids.push(None);
        self.ids.len() - 1
    }

    fn lookup(&self, f: &F) -> Option<Sym> {
        self.syms.get(&id(f)).copied()
    }

    /// Queues a message; false if the connection's task is gone.
    fn emit(&mut self, conn: usize, kind: u8, fields: Vec<P>, value: V) -> bool {
        self.emit_exp(conn, Exp { kind, fields, value, optional: false })
    }

    fn emit_exp(&mut self, conn: usize, e: Exp) -> bool {
        if !self.conns[conn].alive {
            return true;
        }
        if self.conns[conn].dropped {
            self.pending_remove.push(conn);
            return false;
        }
        self.out.push((self.phase, conn, e));
        true
    }

    fn uid(&self, s: Sym) -> P {
        P::Sym(s)
    }

    fn objid(&self, s: Sym, o: &MObj) -> Vec<P> {
        vec![P::I(o.uuid), self.uid(s)]
    }

    fn svcid(&self, s: Sym, v: &MSvc, o: &MObj) -> Vec<P> {
        vec![P::I(o.uuid), P::Sym(v.obj), P::I(v.uuid), P::Sym(s)]
    }

    fn bus_event(&mut self, disc: u8, ids: Vec<P>, obj: Id, svc: Id) {
        self.bus.push((disc, ids, obj, svc));
    }

    /// Runs one event; returns the expected messages as (connection, phase, message).
    pub fn process(&mut self, ev: &Ev) -> Vec<(usize, u8, Exp)> {
        self.out.clear();
        self.phase = 1;
        match ev {
            Ev::New(c) => self.conns[*c].alive = true,
            Ev::Msg(c, f) => {
                if self.conns[*c].alive {
                    self.message(*c, f);
                }
            }
            Ev::CleanEnd(c) | Ev::ErrorEnd(c) => self.pending_remove.push(*c),
            // Known finding of C09: noticed only when the broker sends something to it.
            Ev::Dropped(_) => {}
            Ev::Force(c) => {
                if self.conns[*c].alive {
                    self.phase = 0;
                    self.emit(*c, 2, vec![], V::None);
                    self.phase = 1;
                    self.pending_remove.push(*c);
                }
            }
            Ev::Probe(_) => {}
            Ev::ShutdownIdle => self.shutdown_idle = true,
            Ev::Shutdown => {
                self.shutdown = true;
                let all: Vec<usize> = (0..self.conns.len()).filter(|c| self.conns[*c].alive).collect();
                // Depending on the order of removal a connection may still hear about channels.
                let chans: Vec<(Sym, MChan)> = self.chans.iter().map(|(s, c)| (*s, c.clone())).collect();
                for (s, ch) in chans {
                    if let [End::Claimed(a), End::Claimed(b)] = ch.ends {
                        if a != b {
                            for (to, end) in [(b, 0u8), (a, 1u8)] {
                                self.emit_exp(
                                    to,
                                    Exp { kind: 23, fields: vec![P::Sym(s), P::D(end)], value: V::None, optional: true },
                                );
                            }
                        }
                    }
                }
                self.pending_remove.clear();
                self.phase = 2;
                for c in &all {
                    self.emit(*c, 2, vec![], V::None);
                    self.conns[*c].alive = false;
                }
                self.pending_remove.clear();
                self.objs.clear();
                self.svcs.clear();
                self.calls.clear();
                self.dead_chans.append(&mut self.chans);
                self.lis.clear();
                return self.take();
            }
        }
        self.settle();
        self.take()
    }

    fn take(&mut self) -> Vec<(usize, u8, Exp)> {
        let mut o: Vec<_> = std::mem::take(&mut self.out).into_iter().map(|(p, c, e)| (c, p, e)).collect();
        o.sort_by_key(|x| (x.0, x.1));
        o
    }

    fn settle(&mut self) {
        loop {
            if let Some(c) = self.pending_remove.pop() {
                self.remove_conn(c);
                continue;
            }
            let bus = std::mem::take(&mut self.bus);
            if bus.is_empty() {
                break;
            }
            for (disc, ids, obj, svc) in bus {
                let mut told = BTreeSet::new();
                for l in self.lis.values() {
                    if !matches!(l.scope, Some(1) | Some(2)) {
                        continue;
                    }
                    if l.filters.iter().any(|f| matches_filter(f, disc >= 2, &obj, &svc)) {
                        told.insert(l.owner);
                    }
                }
                for c in told {
                    let mut fields = vec![P::D(0), P::D(disc)];
                    fields.extend(ids.iter().cloned());
                    self.emit(c, 44, fields, V::None);
                }
            }
        }
    }

    fn remove_conn(&mut self, c: usize) {
        if !self.conns[c].alive {
            return;
        }
        self.conns[c].alive = false;
        self.lis.retain(|_, l| l.owner != c);
        let objs: Vec<Sym> = self.objs.iter().filter(|(_, o)| o.owner == c).map(|(s, _)| *s).collect();
        for o in objs {
            self.remove_object(o);
        }
        let svcs: Vec<Sym> = self.svcs.keys().copied().collect();
        for s in svcs {
            let evs: Vec<u32> = self.svcs[&s].events.iter().filter(|(_, m)| m.contains(&c)).map(|(e, _)| *e).collect();
            for e in evs {
                self.unsub_event(c, s, e);
            }
            if self.svcs[&s].all.contains(&c) {
                self.unsub_all(c, s, true);
            }
            self.svcs.get_mut(&s).unwrap().subs.remove(&c);
        }
        for end in 0..2 {
            let mine: Vec<Sym> =
                self.chans.iter().filter(|(_, ch)| ch.ends[end] == End::Claimed(c)).map(|(s, _)| *s).collect();
            for s in mine {
                self.close_end(s, end);
            }
        }
        let calls: Vec<usize> = self.conns[c].calls.values().copied().collect();
        for call in calls {
            self.abort(call);
        }
        self.conns[c].calls.clear();
    }

    fn unsub_event(&mut self, c: usize, s: Sym, e: u32) {
        let v = self.svcs.get_mut(&s).unwrap();
        let Some(m) = v.events.get_mut(&e) else { return };
        if !m.remove(&c) || !m.is_empty() {
            return;
        }
        v.events.remove(&e);
        let owner = v.owner;
        self.emit(owner, 15, vec![P::Sym(s), P::U(e)], V::None);
    }

    fn unsub_all(&mut self, c: usize, s: Sym, fail_matters: bool) {
        let v = self.svcs.get_mut(&s).unwrap();
        if !v.all.remove(&c) || !v.all.is_empty() {
            return;
        }
        let owner = v.owner;
        let ok = self.emit(owner, 60, vec![P::D(0), P::Sym(s)], V::None);
        if !ok && !fail_matters {
            self.pending_remove.pop();
        }
    }

    fn remove_object(&mut self, o: Sym) {
        let svcs: Vec<Sym> = self.svcs.iter().filter(|(_, v)| v.obj == o).map(|(s, _)| *s).collect();
        for s in svcs {
            self.remove_service(s);
        }
        let obj = self.objs.remove(&o).unwrap();
        let ids = self.objid(o, &obj);
        self.bus_event(1, ids, obj.uuid, [0; 16]);
    }

    fn remove_service(&mut self, s: Sym) {
        let v = self.svcs.remove(&s).unwrap();
        let obj = self.objs[&v.obj].clone();
        let ids = self.svcid(s, &v, &obj);
        self.bus_event(3, ids, obj.uuid, v.uuid);
        let calls: Vec<usize> = self.calls.iter().filter(|(_, c)| c.svc == s).map(|(i, _)| *i).collect();
        for i in calls {
            let c = self.calls.remove(&i).unwrap();
            if !c.aborted {
                self.conns[c.caller].calls.remove(&c.cserial);
                self.emit(c.caller, 12, vec![P::U(c.cserial), P::D(3)], V::None);
            }
        }
        let mut told = v.subs.clone();
        for m in v.events.values() {
            told.extend(m);
        }
        for c in &told {
            self.emit(*c, 32, vec![P::Sym(s)], V::None);
        }
        for c in &v.all {
            if !told.contains(c) && !self.conns[*c].dropped {
                // Subscribed to all events only: the property does not say.
                self.emit_exp(*c, Exp { kind: 32, fields: vec![P::Sym(s)], value: V::None, optional: true });
            }
        }
    }

    fn close_end(&mut self, s: Sym, end: usize) {
        let Some(ch) = self.chans.get_mut(&s) else { return };
        ch.ends[end] = End::Closed;
        let gone = match ch.ends[1 - end] {
            End::Claimed(o) if self.conns[o].alive => {
                self.emit(o, 23, vec![P::Sym(s), P::D(end as u8)], V::None);
                false
            }
            _ => true,
        };
        if gone {
            let ch = self.chans.remove(&s).unwrap();
            self.dead_chans.insert(s, ch);
        }
    }

    fn abort(&mut self, call: usize) {
        let Some(c) = self.calls.get_mut(&call) else { return };
        if c.aborted {
            return;
        }
        c.aborted = true;
        let c = c.clone();
        if self.conns[c.owner].version >= 16 {
            self.emit(c.owner, 48, vec![P::Serial(call)], V::None);
        }
        if self.conns[c.caller].alive {
            self.conns[c.caller].calls.remove(&c.cserial);
            self.emit(c.caller, 12, vec![P::U(c.cserial), P::D(2)], V::None);
        }
    }

    /// What the property leaves open: the broker may close the connection or ignore the message.
    pub fn fate_open(&self, c: usize, f: &Frame) -> bool {
        wrong_direction(f.kind)
            || self.conns[c].version < min_version(f.kind)
            || match f.kind {
                13 | 58 => f.fields[0] == F::D(0),
                11 | 62 => self.conns[c].calls.contains_key(&u(&f.fields[0])) && self.svc(&f.fields[1]).is_some(),
                49 | 51 => true,
                52 => f.value.as_ref().map_or(true, |v| info_of(v).is_none()),
                _ => false,
            }
    }

    fn obj(&self, f: &F) -> Option<Sym> {
        self.lookup(f).filter(|s| self.objs.contains_key(s))
    }
    fn svc(&self, f: &F) -> Option<Sym> {
        self.lookup(f).filter(|s| self.svcs.contains_key(s))
    }
    fn chan(&self, f: &F) -> Option<Sym> {
        self.lookup(f).filter(|s| self.chans.contains_key(s))
    }
    fn listener(&self, c: usize, f: &F) -> Option<Sym> {
        self.lookup(f).filter(|s| self.lis.get(s).is_some_and(|l| l.owner == c))
    }

    fn message(&mut self, c: usize, f: &Frame) {
        let x = &f.fields;
        let ver = self.conns[c].version;
        if ver < min_version(f.kind) {
            self.must_close.push(c);
            self.pending_remove.push(c);
            return;
        }
        // A request whose reply cannot be delivered has no effect but the end of the connection.
        if self.conns[c].dropped && !matches!(f.kind, 11 | 12 | 15 | 16 | 24 | 27 | 29 | 37 | 38 | 39 | 48 | 57 | 60 | 62) {
            self.pending_remove.push(c);
            return;
        }
        match f.kind {
            3 => {
                let uuid = id(&x[1]);
                if self.objs.values().any(|o| o.uuid == uuid) {
                    self.emit(c, 4, vec![P::U(u(&x[0])), P::D(1)], V::None);
                } else {
                    let s = self.sym();
                    self.emit(c, 4, vec![P::U(u(&x[0])), P::D(0), P::Sym(s)], V::None);
                    self.objs.insert(s, MObj { uuid, owner: c });
                    self.bus_event(0, vec![P::I(uuid), P::Sym(s)], uuid, [0; 16]);
                }
            }
            5 => {
                let r = match self.obj(&x[1]) {
                    None => 1,
                    Some(o) if self.objs[&o].owner != c => 2,
                    Some(_) => 0,
                };
                self.emit(c, 6, vec![P::U(u(&x[0])), P::D(r)], V::None);
                if r == 0 {
                    let o = self.obj(&x[1]).unwrap();
                    self.remove_object(o);
                }
            }
            7 | 52 => {
                let serial = P::U(u(&x[0]));
                let info = if f.kind == 7 {
                    (u(&x[3]), None, None)
                } else {
                    match info_of(f.value.as_ref().unwrap()) {
                        None => return, // fate decided by the harness
                        Some((v, t, _)) if ver < 18 => (v, t, Some(false)),
                        Some(i) => i,
                    }
                };
                let uuid = id(&x[2]);
                let Some(o) = self.obj(&x[1]) else {
                    self.emit(c, 8, vec![serial, P::D(2)], V::None);
                    return;
                };
                let dup = self.svcs.values().any(|v| v.obj == o && v.uuid == uuid);
                let foreign = self.objs[&o].owner != c;
                match (dup, foreign) {
                    (true, true) => {
                        self.emit(c, 8, vec![serial, P::OneOf(&[1, 3])], V::None);
                    }
                    (true, false) => {
                        self.emit(c, 8, vec![serial, P::D(1)], V::None);
                    }
                    (false, true) => {
                        self.emit(c, 8, vec![serial, P::D(3)], V::None);
                    }
                    (false, false) => {
                        let s = self.sym();
                        self.emit(c, 8, vec![serial, P::D(0), P::Sym(s)], V::None);
                        let v = MSvc {
                            obj: o,
                            uuid,
                            owner: c,
                            info,
                            events: BTreeMap::new(),
                            all: BTreeSet::new(),
                            subs: BTreeSet::new(),
                        };
                        let obj = self.objs[&o].clone();
                        let ids = self.svcid(s, &v, &obj);
                        self.bus_event(2, ids, obj.uuid, uuid);
                        self.svcs.insert(s, v);
                    }
                }
            }
            9 => {
                let r = match self.svc(&x[1]) {
                    None => 1,
                    Some(s) if self.svcs[&s].owner != c => 2,
                    Some(_) => 0,
                };
                self.emit(c, 10, vec![P::U(u(&x[0])), P::D(r)], V::None);
                if r == 0 {
                    let s = self.svc(&x[1]).unwrap();
                    self.remove_service(s);
                }
            }
            11 | 62 => {
                let cserial = u(&x[0]);
                let version = if f.kind == 62 && d(&x[3]) == 1 { Some(u(&x[4])) } else { None };
                let Some(s) = self.svc(&x[1]) else {
                    self.emit(c, 12, vec![P::U(cserial), P::D(3)], V::None);
                    return;
                };
                if self.conns[c].calls.contains_key(&cserial) {
                    return; // fate decided by the harness
                }
                let owner = self.svcs[&s].owner;
                let call = self.next_call;
                self.next_call += 1;
                self.calls.insert(call, MCall { caller: c, cserial, svc: s, owner, aborted: false });
                self.conns[c].calls.insert(cserial, call);
                let mut fields = vec![P::Serial(call), P::Sym(s), P::U(u(&x[2]))];
                match version {
                    Some(v) if self.conns[owner].version >= 19 => fields.extend([P::D(1), P::U(v)]),
                    _ => fields.push(P::D(0)),
                }
                // Normal form: `CallFunction` counts as `CallFunction2` without a version.
                self.emit(owner, 62, fields, V::Payload(f.value.clone().unwrap(), ver));
            }
            12 => {
                let Some(&call) = self.serials.get(&(c, u(&x[0]))) else { return };
                let Some(m) = self.calls.remove(&call) else { return };
                if m.aborted {
                    return;
                }
                self.conns[m.caller].calls.remove(&m.cserial);
                let r = d(&x[1]);
                let v = if r <= 1 { V::Payload(f.value.clone().unwrap(), ver) } else { V::None };
                self.emit(m.caller, 12, vec![P::U(m.cserial), P::D(r)], v);
            }
            13 => {
                if d(&x[0]) == 0 {
                    return;
                }
                let (serial, ev) = (u(&x[1]), u(&x[3]));
                let Some(s) = self.svc(&x[2]) else {
                    self.emit(c, 14, vec![P::U(serial), P::D(1)], V::None);
                    return;
                };
                self.emit(c, 14, vec![P::U(serial), P::D(0)], V::None);
                let v = self.svcs.get_mut(&s).unwrap();
                let owner = v.owner;
                let m = v.events.entry(ev).or_default();
                let first = m.is_empty();
                m.insert(c);
                if first && !self.conns[owner].dropped {
                    self.emit(owner, 13, vec![P::D(0), P::Sym(s), P::U(ev)], V::None);
                }
            }
            15 => {
                if let Some(s) = self.svc(&x[0]) {
                    self.unsub_event(c, s, u(&x[1]));
                }
            }
            16 => {
                let Some(s) = self.svc(&x[0]) else { return };
                let v = &self.svcs[&s];
                if v.owner != c {
                    return;
                }
                let ev = u(&x[1]);
                let mut to = v.all.clone();
                if let Some(m) = v.events.get(&ev) {
                    to.extend(m);
                }
                for t in to {
                    self.emit(t, 16, vec![P::Sym(s), P::U(ev)], V::Payload(f.value.clone().unwrap(), ver));
                }
            }
            17 => {
                let r = match self.svc(&x[1]) {
                    Some(s) => vec![P::U(u(&x[0])), P::D(0), P::U(self.svcs[&s].info.0)],
                    None => vec![P::U(u(&x[0])), P::D(1)],
                };
                self.emit(c, 18, r, V::None);
            }
            19 => {
                let s = self.sym();
                let mut ch = MChan {
                    ends: [End::Unclaimed; 2],
                    granted: 0,
                    announced: 0,
                    sent: 0,
                    sender: None,
                };
                if d(&x[1]) == 0 {
                    ch.ends[0] = End::Claimed(c);
                    ch.sender = Some(c);
                } else {
                    ch.ends[1] = End::Claimed(c);
                    ch.granted = u(&x[2]) as u64;
                }
                self.chans.insert(s, ch);
                self.emit(c, 20, vec![P::U(u(&x[0])), P::Sym(s)], V::None);
            }
            21 => {
                let end = d(&x[2]) as usize;
                let s = self.chan(&x[1]);
                let r = match s.map(|s| self.chans[&s].ends[end]) {
                    None | Some(End::Closed) => 1,
                    Some(End::Unclaimed) => 0,
                    Some(End::Claimed(o)) if o == c => 0,
                    Some(End::Claimed(_)) => 2,
                };
                self.emit(c, 22, vec![P::U(u(&x[0])), P::D(r)], V::None);
                if r == 0 {
                    self.close_end(s.unwrap(), end);
                }
            }
            24 => {
                let serial = P::U(u(&x[0]));
                let end = d(&x[2]) as usize;
                let s = self.chan(&x[1]);
                match s.map(|s| self.chans[&s].ends[end]) {
                    None | Some(End::Closed) => {
                        self.emit(c, 25, vec![serial, P::D(2)], V::None);
                    }
                    Some(End::Claimed(_)) => {
                        self.emit(c, 25, vec![serial, P::D(3)], V::None);
                    }
                    Some(End::Unclaimed) => {
                        let s = s.unwrap();
                        let ch = self.chans.get_mut(&s).unwrap();
                        ch.ends[end] = End::Claimed(c);
                        let other = match ch.ends[1 - end] {
                            End::Claimed(o) => o,
                            _ => panic!("model: unclaimed end without owner of the other"),
                        };
                        if end == 0 {
                            ch.sender = Some(c);
                            self.emit(c, 25, vec![serial, P::D(0), P::Credit(s)], V::None);
                            self.emit(other, 26, vec![P::Sym(s), P::D(0)], V::None);
                        } else {
                            ch.granted = u(&x[3]) as u64;
                            self.emit(c, 25, vec![serial, P::D(1)], V::None);
                            self.emit(other, 26, vec![P::Sym(s), P::D(1), P::Credit(s)], V::None);
                        }
                    }
                }
            }
            27 => {
                let Some(s) = self.chan(&x[0]) else { return };
                let ch = self.chans.get_mut(&s).unwrap();
                if ch.ends[0] != End::Claimed(c) {
                    return;
                }
                match ch.ends[1] {
                    End::Closed => {}
                    End::Unclaimed => {
                        // Sending without any credit costs the sending end; nobody else is there.
                        self.emit_exp(
                            c,
                            Exp { kind: 23, fields: vec![P::Sym(s), P::D(1)], value: V::None, optional: true },
                        );
                        self.close_end(s, 0);
                    }
                    End::Claimed(r) => {
                        if ch.granted == 0 {
                            if ch.announced > ch.sent {
                                self.error = Some(format!(
                                    "a sender was announced credit for {} items although the receiver granted fewer ({} were forwarded)",
                                    ch.announced, ch.sent
                                ));
                                return;
                            }
                            self.close_end(s, 0);
                        } else {
                            if ch.announced <= ch.sent {
                                self.error = Some(format!(
                                    "credit of {} items is not announced to the sender",
                                    ch.granted
                                ));
                                return;
                            }
                            ch.granted -= 1;
                            ch.sent += 1;
                            self.emit(r, 28, vec![P::Sym(s)], V::Payload(f.value.clone().unwrap(), ver));
                        }
                    }
                }
            }
            29 => {
                let Some(s) = self.chan(&x[0]) else { return };
                let ch = self.chans.get_mut(&s).unwrap();
                if ch.ends[1] != End::Claimed(c) {
                    return;
                }
                let n = ch.granted + u(&x[1]) as u64;
                if n > u32::MAX as u64 {
                    self.close_end(s, 1);
                } else {
                    ch.granted = n;
                }
            }
            30 => {
                self.emit(c, 31, vec![P::U(u(&x[0]))], V::None);
            }
            33 => {
                let s = self.sym();
                self.lis.insert(s, MLis { owner: c, filters: BTreeSet::new(), scope: None });
                self.emit(c, 34, vec![P::U(u(&x[0])), P::Sym(s)], V::None);
            }
            35 => {
                let s = self.listener(c, &x[1]);
                self.emit(c, 36, vec![P::U(u(&x[0])), P::D(s.is_none() as u8)], V::None);
                if let Some(s) = s {
                    self.lis.remove(&s);
                }
            }
            37..=39 => {
                if let Some(s) = self.listener(c, &x[0]) {
                    let l = self.lis.get_mut(&s).unwrap();
                    match f.kind {
                        37 => {
                            l.filters.insert(filter_of(&x[1..]));
                        }
                        38 => {
                            l.filters.remove(&filter_of(&x[1..]));
                        }
                        _ => l.filters.clear(),
                    }
                }
            }
            40 => {
                let serial = P::U(u(&x[0]));
                let scope = d(&x[2]);
                let Some(s) = self.listener(c, &x[1]) else {
                    self.emit(c, 41, vec![serial, P::D(1)], V::None);
                    return;
                };
                if self.lis[&s].scope.is_some() {
                    self.emit(c, 41, vec![serial, P::D(2)], V::None);
                    return;
                }
                self.lis.get_mut(&s).unwrap().scope = Some(scope);
                self.emit(c, 41, vec![serial, P::D(0)], V::None);
                if scope != 1 {
                    self.phase = 2;
                    let l = self.lis[&s].clone();
                    let z = [0; 16];
                    let objs: Vec<_> = self
                        .objs
                        .iter()
                        .filter(|(_, o)| l.filters.iter().any(|f| matches_filter(f, false, &o.uuid, &z)))
                        .map(|(i, o)| self.objid(*i, o))
                        .collect();
                    let svcs: Vec<_> = self
                        .svcs
                        .iter()
                        .filter(|(_, v)| {
                            l.filters.iter().any(|f| matches_filter(f, true, &self.objs[&v.obj].uuid, &v.uuid))
                        })
                        .map(|(i, v)| self.svcid(*i, v, &self.objs[&v.obj]))
                        .collect();
                    for o in objs {
                        let mut fields = vec![P::D(1), P::Sym(s), P::D(0)];
                        fields.extend(o);
                        self.emit(c, 44, fields, V::None);
                    }
                    for v in svcs {
                        let mut fields = vec![P::D(1), P::Sym(s), P::D(2)];
                        fields.extend(v);
                        self.emit(c, 44, fields, V::None);
                    }
                    self.phase = 3;
                    self.emit(c, 45, vec![P::Sym(s)], V::None);
                }
            }
            42 => {
                let r = match self.listener(c, &x[1]) {
                    None => 1,
                    Some(s) => {
                        let l = self.lis.get_mut(&s).unwrap();
                        if l.scope.take().is_some() {
                            0
                        } else {
                            2
                        }
                    }
                };
                self.emit(c, 43, vec![P::U(u(&x[0])), P::D(r)], V::None);
            }
            48 => {
                if let Some(&call) = self.conns[c].calls.get(&u(&x[0])) {
                    self.abort(call);
                }
            }
            53 => {
                let (r, v) = match self.svc(&x[1]) {
                    Some(s) => (0, V::Tree(info_tree(&self.svcs[&s].info))),
                    None => (1, V::None),
                };
                self.emit(c, 54, vec![P::U(u(&x[0])), P::D(r)], v);
            }
            55 => {
                let s = self.svc(&x[1]);
                self.emit(c, 56, vec![P::U(u(&x[0])), P::D(s.is_none() as u8)], V::None);
                if let Some(s) = s {
                    self.svcs.get_mut(&s).unwrap().subs.insert(c);
                }
            }
            57 => {
                if let Some(s) = self.svc(&x[0]) {
                    self.svcs.get_mut(&s).unwrap().subs.remove(&c);
                }
            }
            58 => {
                if d(&x[0]) == 0 {
                    return;
                }
                let serial = P::U(u(&x[1]));
                let s = self.svc(&x[2]);
                let r = match s {
                    None => 1,
                    Some(s) => {
                        let v = &self.svcs[&s];
                        if v.info.2 == Some(true) && self.conns[v.owner].version >= 18 {
                            0
                        } else {
                            2
                        }
                    }
                };
                self.emit(c, 59, vec![serial, P::D(r)], V::None);
                if r == 0 {
                    let s = s.unwrap();
                    let v = self.svcs.get_mut(&s).unwrap();
                    let first = v.all.is_empty();
                    v.all.insert(c);
                    let owner = v.owner;
                    if first && !self.conns[owner].dropped {
                        self.emit(owner, 58, vec![P::D(0), P::Sym(s)], V::None);
                    }
                }
            }
            60 => {
                let (serial, cookie) = if d(&x[0]) == 1 { (Some(u(&x[1])), &x[2]) } else { (None, &x[1]) };
                let s = self.svc(cookie);
                let r = match s {
                    None => 1,
                    Some(s) if self.conns[self.svcs[&s].owner].version < 18 => 2,
                    Some(_) => 0,
                };
                if let Some(serial) = serial {
                    if !self.emit(c, 61, vec![P::U(serial), P::D(r)], V::None) {
                        return;
                    }
                }
                if r == 0 {
                    self.unsub_all(c, s.unwrap(), false);
                }
            }
            49..=51 => {} // introspection is outside the listed properties; see C09/C11
            _ => {}
        }
    }

    pub fn counts(&self) -> [usize; 5] {
        [
            self.conns.iter().filter(|c| c.alive).count(),
            self.objs.len(),
            self.svcs.len(),
            self.chans.len(),
            self.lis.len(),
        ]
    }

    /// The broker has stopped.
    pub fn over(&self) -> bool {
        self.shutdown || (self.shutdown_idle && self.conns.iter().all(|c| !c.alive))
    }

    /// (objects, subscriptions, channel ends, listeners, calls) of live connections, and all calls.
    pub fn sizes(&self) -> [usize; 6] {
        [
            self.objs.len(),
            self.subscriptions(),
            self.chans.values().flat_map(|c| c.ends).filter(|e| matches!(e, End::Claimed(_))).count(),
            self.lis.len(),
            self.conns.iter().filter(|c| c.alive).map(|c| c.calls.len()).sum(),
            self.calls.len(),
        ]
    }

    pub fn subscriptions(&self) -> usize {
        self.svcs.values().map(|v| v.events.values().map(|m| m.len()).sum::<usize>() + v.all.len() + v.subs.len()).sum()
    }
}

/// Removes a connection the broker was seen to close (fate left open by the property).
impl Model {
    pub fn closed(&mut self, c: usize) -> Vec<(usize, u8, Exp)> {
        self.out.clear();
        self.phase = 1;
        self.pending_remove.push(c);
        self.settle();
        self.take()
    }
}
