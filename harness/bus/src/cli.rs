//! Programs over the public client API against a real broker: state the oracles need, checks at
//! quiescence. The operations themselves are in `cliops`.
use crate::msgs::{Frame, F};
use crate::sim::{Exec, Pipe, Port};
use crate::tap::{self, Fault, Tap, TapError, TapSt};
use crate::world::frame;
use aldrin::low_level::{
    Call, PendingReceiver, PendingReply, PendingSender, Proxy, Receiver, Sender, Service, ServiceInfo,
    UnclaimedReceiver, UnclaimedSender,
};
use aldrin::{BusListener, Client, Discoverer, DiscovererEvent, Error, Handle, Lifetime, LifetimeId, LifetimeScope, Object};
use aldrin_broker::{Broker, BrokerHandle};
use aldrin_core::{
    BusEvent, BusListenerFilter, BusListenerScope, ChannelCookie, ObjectCookie, ObjectId, ObjectUuid, ServiceCookie,
    ServiceId, ServiceUuid,
};
use std::cell::RefCell;
use futures_util::future::FusedFuture;
use futures_util::stream::Stream;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use uuid::Uuid;
use vp::wire::N;
use vp::{Fail, Src};

pub type S = Rc<RefCell<St>>;

pub fn ouuid(n: usize) -> ObjectUuid {
    ObjectUuid(Uuid::from_bytes(crate::ops::uuid_of(n)))
}

pub fn suuid(n: usize) -> ServiceUuid {
    ServiceUuid(Uuid::from_bytes(crate::ops::uuid_of(0x40 + n)))
}

/// Object and service uuids in use.
pub const OBJS: usize = 3;
pub const SVCS: usize = 3;

pub enum Res {
    Obj(Object),
    Scope(LifetimeScope),
    Svc(Service),
    Proxy(Proxy),
    Reply(PendingReply),
    Call(Call),
    USnd(UnclaimedSender),
    URcv(UnclaimedReceiver),
    PSnd(PendingSender),
    PRcv(PendingReceiver),
    Snd(Sender),
    Rcv(Receiver),
    Lst(BusListener),
    Disc(Discoverer<u8>),
    Life(Lifetime),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum K {
    Obj,
    Scope,
    Svc,
    Proxy,
    Reply,
    Call,
    USnd,
    URcv,
    PSnd,
    PRcv,
    Snd,
    Rcv,
    Lst,
    Disc,
    Life,
}

impl Res {
    pub fn kind(&self) -> K {
        match self {
            Res::Obj(_) => K::Obj,
            Res::Scope(_) => K::Scope,
            Res::Svc(_) => K::Svc,
            Res::Proxy(_) => K::Proxy,
            Res::Reply(_) => K::Reply,
            Res::Call(_) => K::Call,
            Res::USnd(_) => K::USnd,
            Res::URcv(_) => K::URcv,
            Res::PSnd(_) => K::PSnd,
            Res::PRcv(_) => K::PRcv,
            Res::Snd(_) => K::Snd,
            Res::Rcv(_) => K::Rcv,
            Res::Lst(_) => K::Lst,
            Res::Disc(_) => K::Disc,
            Res::Life(_) => K::Life,
        }
    }
}

pub struct Slot {
    pub client: usize,
    pub kind: K,
    pub res: Option<Res>,
    pub busy: Option<usize>,
    /// Index of the record of this resource.
    pub idx: usize,
    pub gone: bool,
    /// Closing it was tried before.
    pub tried: bool,
}

pub struct Lease {
    st: S,
    slot: usize,
    res: Option<Res>,
}

impl Lease {
    pub fn take(st: &S, slot: usize) -> Self {
        let res = st.borrow_mut().slots[slot].res.take();
        assert!(res.is_some(), "harness: slot {slot} is empty");
        Lease { st: st.clone(), slot, res }
    }

    /// The resource does not come back.
    pub fn consume(mut self) -> Res {
        self.st.borrow_mut().slots[self.slot].gone = true;
        self.res.take().unwrap()
    }
}

macro_rules! lease {
    ($($f:ident $k:ident $t:ty;)*) => {
        impl Lease {
            $(pub fn $f(&mut self) -> &mut $t {
                match self.res.as_mut().unwrap() {
                    Res::$k(x) => x,
                    _ => panic!("harness: wrong kind"),
                }
            })*
        }
    };
}

lease! {
    obj Obj Object;
    scope Scope LifetimeScope;
    svc Svc Service;
    proxy Proxy Proxy;
    call Call Call;
    usnd USnd UnclaimedSender;
    urcv URcv UnclaimedReceiver;
    psnd PSnd PendingSender;
    prcv PRcv PendingReceiver;
    snd Snd Sender;
    rcv Rcv Receiver;
    lst Lst BusListener;
    disc Disc Discoverer<u8>;
    life Life Lifetime;
}

impl Drop for Lease {
    fn drop(&mut self) {
        if let Some(r) = self.res.take() {
            self.st.borrow_mut().slots[self.slot].res = Some(r);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Excuse {
    Never,
    NextCall(usize),
    Reply(usize),
    NextEvent(usize),
    /// (channel, own end)
    Establish(usize, usize),
    SendReady(usize),
    NextItem(usize),
    PeerClosed(usize),
    Aborted(usize),
    /// Checked by polling at quiescence.
    Polled,
    Wait,
}

pub struct OpRec {
    pub name: &'static str,
    pub client: usize,
    pub task: usize,
    pub h0: usize,
    /// Length of the history at the first quiescence after the start.
    pub q1: Option<usize>,
    pub done: bool,
    pub cancelled: bool,
    pub excuse: Excuse,
    pub steal: bool,
    pub slot: Option<usize>,
    pub after_stop: bool,
    pub wait: Option<(Option<ObjectUuid>, Vec<ServiceUuid>)>,
    pub t0: u64,
}

pub struct Cl {
    pub handle: Option<Handle>,
    pub minor: u32,
    pub tap: Rc<RefCell<TapSt>>,
    /// Something that ends this client was started.
    pub stopping: bool,
    pub connected: bool,
    pub run: Option<Result<(), String>>,
    pub run_fault: bool,
    pub conn: Option<Result<(), String>>,
    pub task: usize,
    pub conn_task: usize,
    pub cause: Option<(u64, Cause)>,
    pub net: tap::Wire,
    /// Epoch in which introspection was submitted.
    pub intro: Option<u64>,
}

pub struct ObjR {
    pub client: usize,
    pub id: ObjectId,
    pub life: LifetimeId,
    /// 0 untouched, 1 destruction may have been requested, 2 destroyed
    pub destroy: u8,
}

pub struct Emission {
    pub ev: u32,
    pub val: N,
    pub epoch: u64,
}

pub struct SvcR {
    pub client: usize,
    pub id: ServiceId,
    pub info: ServiceInfo,
    pub destroy: u8,
    pub emitted: Vec<Emission>,
    /// Calls delivered, per caller client: index of the last one.
    pub last_call: BTreeMap<usize, usize>,
}

#[derive(Clone, Copy, Default)]
pub struct Sub {
    pub begun: bool,
    pub firm: Option<u64>,
    pub ended: Option<u64>,
}

pub struct PrxR {
    pub client: usize,
    pub svc: usize,
    pub all: bool,
    pub subs: BTreeMap<Option<u32>, Sub>,
    pub last: Option<usize>,
    pub must: BTreeSet<usize>,
    pub finished: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ans {
    Ok(N),
    Err(N),
    Aborted,
    InvalidFunction,
    InvalidArgs,
}

pub struct CallR {
    pub caller: usize,
    pub svc: usize,
    pub func: u32,
    pub ver: Option<u32>,
    pub arg: N,
    pub delivered: bool,
    /// The caller let go of it.
    pub dropped: bool,
    pub answer: Option<Ans>,
    pub resolved: bool,
}

#[derive(Default)]
pub struct EndR {
    pub claimed: Option<usize>,
    pub claim_started: u64,
    /// May be closed.
    pub closing: bool,
    /// (client, time) an unclaimed handle of this end was let go.
    pub drops: Vec<(usize, u64)>,
    /// Clients that have tried to claim it.
    pub tries: Vec<usize>,
    pub published: bool,
    /// More than one handle exists; what happens is less certain.
    pub shared: bool,
}

pub struct ChanR {
    pub cookie: ChannelCookie,
    pub ends: [EndR; 2],
    pub cap: u32,
    pub sent: Vec<N>,
    pub got: usize,
    pub granted: u64,
    /// The most that a claim in progress may grant.
    pub may: u64,
    pub cur: u32,
}

pub struct LisR {
    pub filters: Vec<BusListenerFilter>,
    pub scope: Option<BusListenerScope>,
    pub start: usize,
    pub start_hi: Option<usize>,
    pub got: Vec<BusEvent>,
    pub wild: bool,
    pub ended: bool,
}

pub struct DiscR {
    pub entries: Vec<(u8, Option<ObjectUuid>, Vec<ServiceUuid>)>,
    pub current_only: bool,
    /// Its events were discarded.
    pub waited: bool,
    pub start: usize,
    pub start_hi: Option<usize>,
    pub got: Vec<(u8, bool, ObjectId)>,
    pub ended: bool,
}

pub struct LifeR {
    pub client: usize,
    pub id: ObjectId,
    pub start: usize,
    pub ended: bool,
}

pub struct Later {
    pub what: String,
    pub h0: usize,
    pub check: Box<dyn FnOnce(&[BusEvent], usize, usize) -> Result<(), String>>,
}

pub struct St {
    pub cls: Vec<Cl>,
    pub slots: Vec<Slot>,
    pub ops: Vec<OpRec>,
    pub objs: Vec<ObjR>,
    pub svcs: Vec<SvcR>,
    pub prxs: Vec<PrxR>,
    /// Whether what the clients are subscribed to is compared with their proxies.
    pub check_subs: bool,
    pub calls: Vec<CallR>,
    pub chans: Vec<ChanR>,
    pub liss: Vec<LisR>,
    pub discs: Vec<DiscR>,
    pub lives: Vec<LifeR>,
    pub hist: Vec<BusEvent>,
    pub obs: Rc<RefCell<Pipe>>,
    pub later: Vec<Later>,
    pub fail: Option<Fail>,
    /// The operation that failed.
    pub fail_op: Option<&'static str>,
    pub next_tok: u64,
    pub epoch: u64,
    pub t: u64,
    pub broker_down: bool,
    pub broker_done: bool,
    pub log: Option<Vec<String>>,
    pub counts: BTreeMap<&'static str, u64>,
}

/// What exists on the bus.
#[derive(Default, Clone, Debug)]
pub struct Bus {
    pub objs: BTreeMap<ObjectUuid, ObjectCookie>,
    pub svcs: BTreeMap<(ObjectUuid, ServiceUuid), ServiceId>,
}

impl Bus {
    pub fn apply(&mut self, e: &BusEvent) -> Result<(), String> {
        let ok = match e {
            BusEvent::ObjectCreated(o) => self.objs.insert(o.uuid, o.cookie).is_none(),
            BusEvent::ObjectDestroyed(o) => self.objs.remove(&o.uuid) == Some(o.cookie),
            BusEvent::ServiceCreated(s) => {
                self.objs.get(&s.object_id.uuid) == Some(&s.object_id.cookie)
                    && self.svcs.insert((s.object_id.uuid, s.uuid), *s).is_none()
            }
            BusEvent::ServiceDestroyed(s) => self.svcs.remove(&(s.object_id.uuid, s.uuid)) == Some(*s),
        };
        if ok {
            Ok(())
        } else {
            Err(format!("{e:?} does not fit"))
        }
    }

    pub fn has_obj(&self, o: ObjectId) -> bool {
        self.objs.get(&o.uuid) == Some(&o.cookie)
    }

    pub fn has_svc(&self, s: ServiceId) -> bool {
        self.svcs.get(&(s.object_id.uuid, s.uuid)) == Some(&s)
    }

    /// Objects with that uuid (if given) that carry all the services.
    pub fn matching(&self, o: Option<ObjectUuid>, s: &[ServiceUuid]) -> BTreeMap<ObjectUuid, (ObjectId, Vec<ServiceId>)> {
        let mut out = BTreeMap::new();
        for (u, c) in &self.objs {
            if o.is_some_and(|o| o != *u) {
                continue;
            }
            let ids: Vec<_> = s.iter().filter_map(|s| self.svcs.get(&(*u, *s)).copied()).collect();
            if ids.len() == s.len() {
                out.insert(*u, (ObjectId::new(*u, *c), ids));
            }
        }
        out
    }
}

/// Does `f` hold in some state between the events `lo` and `hi` (both included)?
pub fn any_state(hist: &[BusEvent], lo: usize, hi: usize, mut f: impl FnMut(&Bus) -> bool) -> bool {
    let mut b = Bus::default();
    for (i, e) in hist.iter().enumerate() {
        if i >= lo && i <= hi && f(&b) {
            return true;
        }
        let _ = b.apply(e);
    }
    hist.len() <= hi && f(&b)
}

pub fn fold(hist: &[BusEvent]) -> Bus {
    let mut b = Bus::default();
    for e in hist {
        let _ = b.apply(e);
    }
    b
}

impl St {
    pub fn bump(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            let m = f();
            vp::trace(&m);
            l.push(m);
        }
    }

    pub fn stopping(&self, c: usize) -> bool {
        self.broker_down || self.cls[c].stopping || self.cls[c].tap.borrow().fired.is_some()
    }

    pub fn stopped(&self, c: usize) -> bool {
        self.cls[c].run.is_some()
    }

    pub fn version_ok(&self, c: usize, v: u32) -> bool {
        self.cls[c].minor >= v
    }

    pub fn set_fail(&mut self, f: Fail) {
        self.fail.get_or_insert(f);
    }

    /// Takes what the observer has been told.
    pub fn pull(&mut self) {
        let frames: Vec<Frame> = std::mem::take(&mut self.obs.borrow_mut().sent);
        for f in frames {
            if f.kind == 44 {
                match bus_event(&f) {
                    Ok(e) => self.hist.push(e),
                    Err(e) => self.set_fail(Fail::new("observer", e)),
                }
            }
        }
    }

    pub fn add(&mut self, client: usize, res: Res, idx: usize) -> usize {
        self.slots.push(Slot { client, kind: res.kind(), res: Some(res), busy: None, idx, gone: false, tried: false });
        self.slots.len() - 1
    }

    pub fn later(
        &mut self,
        h0: usize,
        what: String,
        check: impl FnOnce(&[BusEvent], usize, usize) -> Result<(), String> + 'static,
    ) {
        self.later.push(Later { what, h0, check: Box::new(check) });
    }

    pub fn svc_of(&self, id: ServiceId) -> Option<usize> {
        self.svcs.iter().position(|s| s.id == id)
    }

    pub fn sub_begin(&mut self, p: usize, k: Option<u32>) {
        let s = self.prxs[p].subs.entry(k).or_default();
        s.begun = true;
        s.ended = None;
    }

    pub fn emitted(&mut self, svc: usize, ev: u32, val: N) {
        let epoch = self.epoch;
        let i = self.svcs[svc].emitted.len();
        self.svcs[svc].emitted.push(Emission { ev, val, epoch });
        let obj = self.svcs[svc].id.object_id;
        if self.svcs[svc].destroy != 0
            || self.stopping(self.svcs[svc].client)
            || self.objs.iter().any(|o| o.id == obj && o.destroy != 0)
        {
            return;
        }
        for p in 0..self.prxs.len() {
            if self.prxs[p].svc != svc || self.stopping(self.prxs[p].client) || self.prxs[p].finished {
                continue;
            }
            let firm = [Some(ev), None]
                .iter()
                .any(|k| self.prxs[p].subs.get(k).is_some_and(|s| s.ended.is_none() && s.firm.is_some_and(|f| f < epoch)));
            if firm {
                self.prxs[p].must.insert(i);
            }
        }
    }

    /// An unclaimed handle of a channel end was let go.
    pub fn unclaimed_dropped(&mut self, ch: usize, end: usize, client: usize) {
        let t = self.t;
        if self.stopped(client) {
            return;
        }
        let unsure = self.stopping(client);
        let e = &mut self.chans[ch].ends[end];
        e.drops.push((client, t));
        e.shared |= unsure;
        if e.claimed.is_none() || e.claimed == Some(client) {
            e.closing = true;
        }
    }

    pub fn claim_ok(&mut self, ch: usize, end: usize, client: usize, t0: u64) {
        let e = &mut self.chans[ch].ends[end];
        if let Some(o) = e.claimed {
            let m = format!("end {end} of a channel was claimed by client {o} and then by client {client}");
            self.set_fail(Fail::new("claimed-twice", m));
            return;
        }
        e.claimed = Some(client);
        e.closing = e.drops.iter().any(|d| d.0 == client && d.1 > t0);
    }

    pub fn end_may_be_closed(&self, ch: usize, end: usize) -> bool {
        let e = &self.chans[ch].ends[end];
        e.closing || e.claimed.is_some_and(|c| self.stopping(c)) || e.tries.iter().any(|c| self.stopping(*c))
    }

    fn taken_away(&self, ch: usize, end: usize) -> bool {
        let e = &self.chans[ch].ends[end];
        e.shared && e.closing
    }

    /// At quiescence: closed for certain.
    pub fn end_closed(&self, ch: usize, end: usize) -> bool {
        let e = &self.chans[ch].ends[end];
        match e.claimed {
            Some(c) => self.stopped(c) || (e.closing && !e.shared),
            None => e.closing && !e.shared && e.drops.iter().any(|d| !self.stopping(d.0)),
        }
    }

    /// A pending operation at quiescence is in order.
    fn excused(&self, o: &OpRec, bus: &Bus) -> Result<(), String> {
        if self.stopped(o.client) {
            return Err("its client has stopped".into());
        }
        match o.excuse {
            Excuse::Never => Err("nothing is left to wait for".into()),
            Excuse::Polled => Ok(()),
            Excuse::NextCall(s) => {
                let r = &self.svcs[s];
                if r.destroy == 2 {
                    return Err("the service is destroyed".into());
                }
                if !bus.has_svc(r.id) {
                    return Ok(());
                }
                match self.calls.iter().position(|c| {
                    c.svc == s && !c.delivered && !c.dropped && !self.stopping(c.caller) && !c.resolved
                }) {
                    Some(c) => Err(format!("call {c} has not been delivered")),
                    None => Ok(()),
                }
            }
            Excuse::Reply(c) => {
                let r = &self.calls[c];
                if r.answer.is_some() {
                    Err(format!("the call was answered with {:?}", r.answer))
                } else if !bus.has_svc(self.svcs[r.svc].id) {
                    Err("the service does not exist any more".into())
                } else {
                    Ok(())
                }
            }
            Excuse::NextEvent(p) => {
                let r = &self.prxs[p];
                let s = &self.svcs[r.svc];
                if !bus.has_svc(s.id) && self.version_ok(r.client, 18) {
                    Err("the service does not exist any more".into())
                } else if let (Some(i), false) = (r.must.first(), self.stopping(s.client)) {
                    Err(format!("event #{i} of the service has not been delivered"))
                } else {
                    Ok(())
                }
            }
            // Another handle to the same end has closed it: nobody tells this one.
            Excuse::Establish(ch, own) if self.taken_away(ch, own) => Ok(()),
            Excuse::SendReady(ch) | Excuse::PeerClosed(ch) if self.taken_away(ch, 0) => Ok(()),
            Excuse::NextItem(ch) if self.taken_away(ch, 1) => Ok(()),
            Excuse::Establish(ch, own) => {
                let e = &self.chans[ch].ends[1 - own];
                if self.end_closed(ch, 1 - own) {
                    Err("the other end is closed".into())
                } else if e.claimed.is_some() {
                    Err("the other end is claimed".into())
                } else if self.end_closed(ch, own) {
                    Err("its own end is closed".into())
                } else {
                    Ok(())
                }
            }
            Excuse::SendReady(ch) => {
                let c = &self.chans[ch];
                if self.end_closed(ch, 1) {
                    Err("the receiver is closed".into())
                } else if (c.sent.len() as u64) < c.granted && !c.ends[1].closing {
                    Err(format!("{} items sent, {} granted", c.sent.len(), c.granted))
                } else {
                    Ok(())
                }
            }
            Excuse::NextItem(ch) => {
                let c = &self.chans[ch];
                if self.end_closed(ch, 0) {
                    Err("the sender is closed".into())
                } else if c.got < c.sent.len() && !c.ends[0].closing && !c.ends[1].closing {
                    Err(format!("{} items sent, {} received", c.sent.len(), c.got))
                } else {
                    Ok(())
                }
            }
            Excuse::PeerClosed(ch) => {
                if self.end_closed(ch, 1) {
                    Err("the receiver is closed".into())
                } else {
                    Ok(())
                }
            }
            Excuse::Aborted(c) => {
                let r = &self.calls[c];
                let s = &self.svcs[r.svc];
                if (r.dropped || self.stopped(r.caller))
                    && bus.has_svc(s.id)
                    && self.version_ok(r.caller, 16)
                    && self.version_ok(s.client, 16)
                {
                    Err("the caller has aborted the call".into())
                } else {
                    Ok(())
                }
            }
            Excuse::Wait => {
                let (u, s) = o.wait.as_ref().unwrap();
                let lo = o.q1.unwrap();
                if any_state(&self.hist, lo, self.hist.len(), |b| !b.matching(*u, s).is_empty()) {
                    Err("a matching object has existed".into())
                } else {
                    Ok(())
                }
            }
        }
    }
}

fn bus_event(f: &Frame) -> Result<BusEvent, String> {
    let b = |i: usize| match f.fields.get(i) {
        Some(F::I(b)) => Ok(Uuid::from_bytes(*b)),
        _ => Err(format!("bad bus event {f:?}")),
    };
    // D(kind of destination), cookie?, D(event), ids
    let mut i = 0;
    if matches!(f.fields.first(), Some(F::D(1))) {
        i = 1;
    }
    i += 1;
    let Some(F::D(k)) = f.fields.get(i) else {
        return Err(format!("bad bus event {f:?}"));
    };
    let o = ObjectId::new(ObjectUuid(b(i + 1)?), ObjectCookie(b(i + 2)?));
    Ok(match k {
        0 => BusEvent::ObjectCreated(o),
        1 => BusEvent::ObjectDestroyed(o),
        _ => {
            let s = ServiceId::new(o, ServiceUuid(b(i + 3)?), ServiceCookie(b(i + 4)?));
            if *k == 2 {
                BusEvent::ServiceCreated(s)
            } else {
                BusEvent::ServiceDestroyed(s)
            }
        }
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Uniform,
    Priority,
    Starve(usize),
    Lifo,
    Fifo,
}

pub struct W {
    pub st: S,
    pub exec: Exec,
    pub broker: usize,
    pub bh: BrokerHandle,
    pub obs: Rc<RefCell<Pipe>>,
    pub policy: Policy,
    prio: Vec<u64>,
    turn: usize,
    pub peak: u64,
    /// Restrict the choice of resources or clients.
    pub only: Option<usize>,
    pub only_client: Option<usize>,
}

pub type R<T = ()> = Result<T, Fail>;

#[derive(Clone, Debug)]
pub struct Conf {
    pub minor: u32,
    pub net: tap::Wire,
    pub plan: Option<(u64, Fault)>,
    /// A clean end once that many transport operations have happened.
    pub cause: Option<(u64, Cause)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cause {
    Shutdown,
    LastHandle,
    Broker,
}

const BUDGET: u64 = 60_000;

impl W {
    pub fn new(src: &mut Src, log: bool, confs: Vec<Conf>) -> R<W> {
        let mut exec = Exec::default();
        let obs = Rc::new(RefCell::new(Pipe::default()));
        let broker = Broker::new();
        let bh = broker.handle().clone();
        let st = Rc::new(RefCell::new(St {
            cls: Vec::new(),
            slots: Vec::new(),
            ops: Vec::new(),
            objs: Vec::new(),
            svcs: Vec::new(),
            prxs: Vec::new(),
            check_subs: false,
            calls: Vec::new(),
            chans: Vec::new(),
            liss: Vec::new(),
            discs: Vec::new(),
            lives: Vec::new(),
            hist: Vec::new(),
            obs: obs.clone(),
            later: Vec::new(),
            fail: None,
            fail_op: None,
            next_tok: 1,
            epoch: 0,
            t: 0,
            broker_down: false,
            broker_done: false,
            log: log.then(Vec::new),
            counts: BTreeMap::new(),
        }));
        let s = st.clone();
        let b = exec.spawn(async move {
            broker.run().await;
            s.borrow_mut().broker_done = true;
        });
        let mut w =
            W { st, exec, broker: b, bh, obs, policy: Policy::Uniform, prio: Vec::new(), turn: 0, peak: 0, only: None, only_client: None };
        w.observer()?;
        for c in confs {
            w.connect(c);
        }
        w.pick_policy(src);
        Ok(w)
    }

    /// A raw connection that listens to everything: the history of the bus.
    fn observer(&mut self) -> R {
        let pipe = self.obs.clone();
        let port = Port { st: pipe.clone(), log: Rc::new(RefCell::new(Vec::new())) };
        let mut h = self.bh.clone();
        self.exec.spawn(async move {
            if let Ok(c) = h.connect(port).await {
                let _ = c.run().await;
            }
        });
        let send = |w: &mut W, f: Frame| {
            w.obs.borrow_mut().push_frame(f);
            for _ in 0..200 {
                let r = w.exec.ready();
                if r.is_empty() {
                    break;
                }
                for t in r {
                    w.exec.poll(t);
                }
            }
        };
        let mut connect = frame(46, vec![F::U(1), F::U(20)]);
        connect.value = Some(vp::wire::encode_canonical(&N::Struct(BTreeMap::new()), vp::wire::Epoch::V1));
        send(self, connect);
        send(self, frame(33, vec![F::U(0)]));
        let cookie = self
            .obs
            .borrow()
            .sent
            .iter()
            .find(|f| f.kind == 34)
            .and_then(|f| f.fields.iter().find_map(|x| if let F::I(b) = x { Some(*b) } else { None }));
        let Some(cookie) = cookie else {
            return Err(Fail::new("observer", format!("no listener: {:?}", self.obs.borrow().sent)));
        };
        send(self, frame(37, vec![F::I(cookie), F::D(0)]));
        send(self, frame(37, vec![F::I(cookie), F::D(2)]));
        send(self, frame(40, vec![F::U(1), F::I(cookie), F::D(2)]));
        self.obs.borrow_mut().sent.clear();
        Ok(())
    }

    pub fn connect(&mut self, conf: Conf) {
        let (a, b) = tap::pair(conf.net);
        let tap = Rc::new(RefCell::new(TapSt { minor: conf.minor, plan: conf.plan, ..Default::default() }));
        let i = self.st.borrow().cls.len();
        self.st.borrow_mut().cls.push(Cl {
            handle: None,
            minor: conf.minor,
            tap: tap.clone(),
            stopping: false,
            connected: false,
            run: None,
            run_fault: false,
            conn: None,
            task: 0,
            conn_task: 0,
            cause: conf.cause,
            net: conf.net,
            intro: None,
        });
        let mut h = self.bh.clone();
        let s = self.st.clone();
        let conn_task = self.exec.spawn(async move {
            let r = match h.connect(a).await {
                Ok(c) => c.run().await.map_err(|e| format!("{e:?}")),
                Err(e) => Err(format!("{e:?}")),
            };
            s.borrow_mut().cls[i].conn = Some(r);
        });
        let s = self.st.clone();
        let t = Tap { inner: Some(b), st: tap.clone() };
        let minor = conf.minor;
        let task = self.exec.spawn(async move {
            let b = Client::builder(t);
            let c = if minor == 14 { b.connect1().await } else { b.connect().await };
            let r = match c {
                Ok(c) => {
                    {
                        let mut s = s.borrow_mut();
                        s.cls[i].handle = Some(c.handle().clone());
                        s.cls[i].connected = true;
                    }
                    c.run().await.map_err(|e| match e {
                        aldrin::error::RunError::Transport(TapError::Injected) => "fault: injected".to_string(),
                        aldrin::error::RunError::Transport(TapError::Closed) => "fault: closed".to_string(),
                        e => format!("{e:?}"),
                    })
                }
                Err(e) => Err(match e {
                    aldrin::error::ConnectError::Transport(_) => "fault: connect".to_string(),
                    e => format!("{e:?}"),
                }),
            };
            let mut s = s.borrow_mut();
            let (fired, reported, heard) = {
                let t = s.cls[i].tap.borrow();
                (t.fired, t.reported, t.heard)
            };
            // The broker was gone before it learned of this connection.
            let early = s.broker_down && heard <= 1;
            if let Err(e) = &r {
                let fault = e.starts_with("fault: ");
                if !fault || !reported && !early {
                    let k = e.split(['(', '{', ' ']).next().unwrap_or("").to_string();
                    let k = if k == "UnexpectedMessageReceived" {
                        format!("unexpected-{}", e[k.len() + 1..].split(['(', '{', ' ']).next().unwrap_or(""))
                    } else {
                        k
                    };
                    let m = format!("client {i} (1.{minor}) stopped with {e} (fault: {fired:?})");
                    s.set_fail(Fail::new(format!("run-{k}"), m));
                }
            } else if reported {
                let m = format!("client {i} (1.{minor}) reports success after the transport fault {fired:?}");
                s.set_fail(Fail::new("run-ok", m));
            } else if !s.stopping(i) {
                let m = format!("client {i} (1.{minor}) stopped and nobody asked it to");
                s.set_fail(Fail::new("run-ended", m));
            }
            let cut = s.ops.iter().filter(|o| o.client == i && !o.done).count() as u64;
            *s.counts.entry("cut off").or_default() += cut;
            s.note(|| format!("-- client {i} stopped: {r:?}"));
            s.cls[i].run = Some(r);
        });
        let mut st = self.st.borrow_mut();
        st.cls[i].task = task;
        st.cls[i].conn_task = conn_task;
        let net = conf.net;
        st.note(|| format!("client {i}: version 1.{minor}, transport {net:?}"));
    }

    pub fn pick_policy(&mut self, src: &mut Src) {
        let n = self.exec.len();
        self.policy = match src.weighted(&[4, 3, 3, 1, 1]) {
            0 => Policy::Uniform,
            1 => Policy::Priority,
            2 => Policy::Starve(src.us(n)),
            3 => Policy::Lifo,
            _ => Policy::Fifo,
        };
    }

    fn pick(&mut self, src: &mut Src, ready: &[usize]) -> usize {
        self.turn += 1;
        if ready.len() == 1 {
            return ready[0];
        }
        match self.policy {
            Policy::Uniform => ready[src.us(ready.len())],
            Policy::Priority => {
                while self.prio.len() < self.exec.len() {
                    self.prio.push(src.below(1000));
                }
                let t = *ready.iter().max_by_key(|t| self.prio[**t]).unwrap();
                if self.turn % 7 == 0 && src.chance(1, 3) {
                    self.prio[t] = src.below(1000);
                }
                t
            }
            Policy::Starve(x) => {
                let r: Vec<_> = ready.iter().copied().filter(|t| *t != x).collect();
                if r.is_empty() {
                    ready[0]
                } else {
                    r[src.us(r.len())]
                }
            }
            Policy::Lifo => *ready.last().unwrap(),
            Policy::Fifo => ready[self.turn % ready.len()],
        }
    }

    pub fn failed(&self) -> R {
        match &self.st.borrow().fail {
            Some(f) => Err(f.clone()),
            None => Ok(()),
        }
    }

    pub fn steps(&mut self, src: &mut Src, n: usize) -> R {
        for _ in 0..n {
            let ready = self.exec.ready();
            if ready.is_empty() {
                break;
            }
            let t = self.pick(src, &ready);
            self.exec.poll(t);
            self.st.borrow_mut().t += 1;
            self.causes();
        }
        self.failed()
    }

    /// Applies planned clean ends.
    fn causes(&mut self) {
        let n = self.st.borrow().cls.len();
        for c in 0..n {
            let cause = {
                let s = self.st.borrow();
                let x = &s.cls[c];
                x.cause.filter(|(k, _)| x.handle.is_some() && x.tap.borrow().ops >= *k).map(|x| x.1)
            };
            let Some(cause) = cause else { continue };
            self.st.borrow_mut().cls[c].cause = None;
            match cause {
                Cause::Shutdown => self.shutdown(c),
                Cause::LastHandle => self.last_handle(c),
                Cause::Broker => self.broker_shutdown(),
            }
        }
    }

    /// Runs until nothing can run any more and checks what holds then.
    pub fn settle(&mut self, src: &mut Src) -> R {
        self.drain(src)?;
        self.quiet()
    }

    /// Runs until nothing can run any more.
    pub fn drain(&mut self, src: &mut Src) -> R {
        let mut n = 0;
        loop {
            let ready = self.exec.ready();
            if ready.is_empty() {
                break;
            }
            let t = self.pick(src, &ready);
            self.exec.poll(t);
            self.st.borrow_mut().t += 1;
            self.causes();
            n += 1;
            if n > BUDGET {
                return Err(Fail::new("livelock", format!("no quiescence after {n} polls; ready: {ready:?}")));
            }
        }
        self.peak = self.peak.max(n);
        self.failed()
    }

    /// All clients are stopping: checks that they end and that the broker does then.
    pub fn wind_up(&mut self, src: &mut Src) -> R {
        self.drain(src)?;
        for (c, cl) in self.st.borrow().cls.iter().enumerate() {
            if cl.run.is_none() || cl.conn.is_none() {
                let m = format!("client {c} does not stop: {:?}, connection {:?}", cl.run, cl.conn);
                return Err(Fail::new("client-hangs", m));
            }
        }
        let down = self.st.borrow().broker_down;
        if !down {
            self.obs.borrow_mut().push_frame(frame(2, vec![]));
            let mut h = self.bh.clone();
            self.exec.spawn(async move { h.shutdown_idle().await });
        }
        self.drain(src)?;
        if !self.st.borrow().broker_done {
            return Err(Fail::new("broker-hangs", "all clients have left and the broker does not stop"));
        }
        Ok(())
    }

    pub fn go<Fut>(&mut self, name: &'static str, client: usize, excuse: Excuse, steal: bool, slot: Option<usize>, fut: Fut) -> usize
    where
        Fut: Future<Output = R> + 'static,
    {
        let i = {
            let mut st = self.st.borrow_mut();
            st.pull();
            let i = st.ops.len();
            let h0 = st.hist.len();
            let after_stop = st.stopped(client);
            let t0 = st.t;
            st.ops.push(OpRec {
                name,
                client,
                task: 0,
                h0,
                q1: None,
                done: false,
                cancelled: false,
                excuse,
                steal,
                slot,
                after_stop,
                wait: None,
                t0,
            });
            if let Some(s) = slot {
                st.slots[s].busy = Some(i);
            }
            st.note(|| format!("#{i} client {client}: {name} (slot {slot:?}, {excuse:?})"));
            st.bump("operations");
            i
        };
        let st = self.st.clone();
        let task = self.exec.spawn(async move {
            let r = fut.await;
            let mut st = st.borrow_mut();
            st.ops[i].done = true;
            if let Some(s) = slot {
                st.slots[s].busy = None;
            }
            st.note(|| format!("#{i} {name}: done"));
            if let Err(f) = r {
                let f = Fail::new(f.sig.clone(), format!("operation #{i} {name} of client {client}: {}", f.msg));
                if st.fail.is_none() {
                    st.fail_op = Some(name);
                }
                st.set_fail(f);
            }
        });
        self.st.borrow_mut().ops[i].task = task;
        i
    }

    /// Drops the future of an operation.
    pub fn cancel(&mut self, i: usize) {
        let (task, slot) = {
            let mut st = self.st.borrow_mut();
            if st.ops[i].done {
                return;
            }
            st.ops[i].done = true;
            st.ops[i].cancelled = true;
            st.note(|| format!("#{i} cancelled"));
            st.bump("cancelled operations");
            (st.ops[i].task, st.ops[i].slot)
        };
        self.exec.drop_task(task);
        if let Some(s) = slot {
            let mut st = self.st.borrow_mut();
            if st.slots[s].busy == Some(i) {
                st.slots[s].busy = None;
            }
        }
    }

    /// Checks that hold when nothing can run.
    fn quiet(&mut self) -> R {
        self.st.borrow_mut().pull();
        let down = self.st.borrow().broker_down;
        if !down {
            self.check_hist()?;
        }
        self.pollable()?;
        let mut st = self.st.borrow_mut();
        let st = &mut *st;
        let hi = st.hist.len();
        let mut bus = Bus::default();
        for e in &st.hist {
            let _ = bus.apply(e);
        }
        // What the broker has and what the applications hold.
        if !down {
            for l in std::mem::take(&mut st.later) {
                if let Err(e) = (l.check)(&st.hist, l.h0, hi) {
                    return Err(Fail::new("result", format!("{}: {e}", l.what)));
                }
            }
            for (i, s) in st.slots.iter().enumerate() {
                if s.gone || st.stopping(s.client) {
                    continue;
                }
                match s.kind {
                    K::Obj | K::Scope => {
                        let o = &st.objs[s.idx];
                        let has = bus.has_obj(o.id);
                        if o.destroy == 0 && !has || o.destroy == 2 && has {
                            let m = format!("slot {i}: {:?} exists: {has}, destroyed: {}", o.id, o.destroy);
                            return Err(Fail::new("object-state", m));
                        }
                    }
                    K::Svc => {
                        let v = &st.svcs[s.idx];
                        let has = bus.has_svc(v.id);
                        if v.destroy == 2 && has {
                            let m = format!("slot {i}: {:?} exists: {has}, destroyed: {}", v.id, v.destroy);
                            return Err(Fail::new("service-state", m));
                        }
                        if v.destroy == 0 && !has && bus.has_obj(v.id.object_id) {
                            let m = format!("slot {i}: {:?} does not exist though its object does", v.id);
                            return Err(Fail::new("service-state", m));
                        }
                    }
                    _ => {}
                }
            }
            if st.check_subs {
                for (c, cl) in st.cls.iter().enumerate() {
                    let tap = cl.tap.borrow();
                    if st.stopping(c) || tap.fired.is_some() || cl.run.is_some() {
                        continue;
                    }
                    for (cookie, k) in &tap.subs {
                        let Some(v) = st.svcs.iter().position(|v| v.id.cookie == *cookie && bus.has_svc(v.id)) else {
                            continue;
                        };
                        let wanted = st.slots.iter().any(|s| {
                            s.kind == K::Proxy && !s.gone && s.client == c && {
                                let p = &st.prxs[s.idx];
                                p.svc == v && p.subs.get(k).is_some_and(|x| x.begun && x.ended.is_none())
                            }
                        });
                        if !wanted {
                            let m = format!("client {c} is still subscribed to event {k:?} of {:?}; no proxy is", st.svcs[v].id);
                            return Err(Fail::new("subscription-left", m));
                        }
                    }
                }
            }
            for (u, c) in &bus.objs {
                let held = st
                    .slots
                    .iter()
                    .any(|s| matches!(s.kind, K::Obj | K::Scope) && !s.gone && st.objs[s.idx].id == ObjectId::new(*u, *c));
                if !held {
                    return Err(Fail::new("object-left", format!("object {u:?} {c:?} exists and nobody holds it")));
                }
            }
            for v in bus.svcs.values() {
                let held = st.slots.iter().any(|s| s.kind == K::Svc && !s.gone && st.svcs[s.idx].id == *v);
                if !held {
                    return Err(Fail::new("service-left", format!("service {v:?} exists and nobody holds it")));
                }
            }
        } else {
            st.later.clear();
        }
        for i in 0..st.ops.len() {
            let o = &mut st.ops[i];
            if o.done {
                continue;
            }
            o.q1.get_or_insert(hi);
            let o = &st.ops[i];
            if down && !st.stopped(o.client) {
                continue;
            }
            if let Err(why) = st.excused(o, &bus) {
                let m = format!("operation #{i} {} of client {} hangs: {why}", o.name, o.client);
                return Err(Fail::new(format!("hang-{}", o.name.replace(' ', "-")), m));
            }
        }
        for i in 0..st.cls.len() {
            let c = &st.cls[i];
            let fault = {
                let t = c.tap.borrow();
                matches!(t.fired, Some(Fault::All | Fault::Recv | Fault::Eof)) || t.reported
            };
            if c.run.is_none() && (c.stopping || fault || st.broker_down) {
                let held = c.tap.borrow().fired.is_some() && !fault;
                if !held {
                    let m = format!("client {i} was to stop (fault {:?}) and still runs", c.tap.borrow().fired);
                    return Err(Fail::new("client-hangs", m));
                }
            }
            if c.run.is_some() && c.conn.is_none() {
                let m = format!("client {i} has stopped and the broker's connection still runs");
                return Err(Fail::new("connection-hangs", m));
            }
        }
        for l in st.liss.iter_mut() {
            if l.scope.is_some() {
                l.start_hi.get_or_insert(hi);
            }
        }
        for d in st.discs.iter_mut() {
            d.start_hi.get_or_insert(hi);
        }
        st.epoch += 1;
        st.note(|| "-- quiescence".to_string());
        Ok(())
    }

    fn check_hist(&self) -> R {
        let st = self.st.borrow();
        let mut b = Bus::default();
        for (i, e) in st.hist.iter().enumerate() {
            if let Err(m) = b.apply(e) {
                return Err(Fail::new("history", format!("bus event {i}: {m}; before: {b:?}")));
            }
        }
        Ok(())
    }

    /// Drains listeners, discoverers and lifetimes and compares them with the history.
    fn pollable(&mut self) -> R {
        let n = self.st.borrow().slots.len();
        for i in 0..n {
            let (kind, busy, client, idx, gone) = {
                let st = self.st.borrow();
                let s = &st.slots[i];
                (s.kind, s.busy, s.client, s.idx, s.gone)
            };
            if gone || !matches!(kind, K::Lst | K::Disc | K::Life) {
                continue;
            }
            let mut stolen = None;
            if let Some(op) = busy {
                let st = self.st.borrow();
                if !st.ops[op].steal {
                    continue;
                }
                stolen = Some((op, st.ops[op].name));
                drop(st);
                self.cancel(op);
            }
            let down = self.st.borrow().broker_down;
            let stopped = self.st.borrow().stopped(client);
            let mut l = Lease::take(&self.st, i);
            let mut cx = Context::from_waker(Waker::noop());
            let mut lost = 0;
            match kind {
                K::Lst => {
                    let ended = loop {
                        let e = match idx % 2 {
                            0 => l.lst().poll_next_event(&mut cx),
                            _ => Pin::new(l.lst()).poll_next(&mut cx),
                        };
                        match e {
                            Poll::Ready(Some(e)) => {
                                lost += 1;
                                let mut st = self.st.borrow_mut();
                                st.bump("bus events");
                                st.liss[idx].got.push(e)
                            }
                            Poll::Ready(None) => break true,
                            Poll::Pending => break false,
                        }
                    };
                    if ended {
                        lost += 1;
                    }
                    self.st.borrow_mut().liss[idx].ended = ended;
                    if !stopped && !down {
                        self.check_listener(idx)?;
                    }
                }
                K::Disc => {
                    let ended = loop {
                        let e = match idx % 2 {
                            0 => l.disc().poll_next_event(&mut cx),
                            _ => Pin::new(l.disc()).poll_next(&mut cx),
                        };
                        match e {
                            Poll::Ready(Some(e)) => {
                                lost += 1;
                                self.st.borrow_mut().discs[idx].got.push((e.key(), e.is_created(), e.object_id()))
                            }
                            Poll::Ready(None) => break true,
                            Poll::Pending => break false,
                        }
                    };
                    if ended {
                        lost += 1;
                    }
                    self.st.borrow_mut().discs[idx].ended = ended;
                    if !stopped && !down {
                        self.check_disc(idx, l.disc())?;
                    }
                }
                _ => {
                    let ended = match idx % 2 {
                        0 => l.life().poll_ended(&mut cx).is_ready(),
                        _ => Pin::new(l.life()).poll(&mut cx).is_ready(),
                    };
                    if ended {
                        lost += 1;
                    }
                    let mut st = self.st.borrow_mut();
                    let id = st.lives[idx].id;
                    st.lives[idx].ended = ended;
                    if !stopped && !down {
                        let has = fold(&st.hist).has_obj(id);
                        if ended && has {
                            return Err(Fail::new("lifetime-early", format!("a lifetime of {id:?} ended while it exists")));
                        }
                        if !ended && !has {
                            return Err(Fail::new("lifetime-late", format!("a lifetime of {id:?} has not ended; it does not exist")));
                        }
                    }
                    if stopped && !ended {
                        return Err(Fail::new("hang-lifetime", format!("a lifetime of {id:?} goes on after its client stopped")));
                    }
                    if l.life().has_ended() != ended || l.life().is_terminated() != ended {
                        return Err(Fail::new("lifetime-flag", "has_ended and poll_ended disagree"));
                    }
                }
            }
            if let Some((op, name)) = stolen {
                if lost > 0 {
                    let m = format!("operation #{op} {name} of client {client} was not woken though it can complete");
                    return Err(Fail::new("lost-wakeup", m));
                }
            }
            if stopped && matches!(kind, K::Lst | K::Disc) {
                let st = self.st.borrow();
                let ended = if kind == K::Lst { st.liss[idx].ended } else { st.discs[idx].ended };
                if !ended {
                    return Err(Fail::new("hang-listener", format!("a {kind:?} of stopped client {client} does not end")));
                }
            }
        }
        Ok(())
    }

    fn check_listener(&self, idx: usize) -> R {
        let st = self.st.borrow();
        let l = &st.liss[idx];
        let Some(scope) = l.scope else {
            if !l.wild && !l.got.is_empty() {
                return Err(Fail::new("listener", format!("a listener that was not started got {:?}", l.got)));
            }
            return Ok(());
        };
        if l.wild {
            return Ok(());
        }
        let hi = l.start_hi.unwrap_or(st.hist.len());
        let m = |e: &BusEvent| l.filters.iter().any(|f| f.matches_event(*e));
        let want_end = scope == BusListenerScope::Current;
        for p in l.start..=hi {
            let mut cur: Vec<BusEvent> = Vec::new();
            if scope != BusListenerScope::New {
                let b = fold(&st.hist[..p]);
                cur.extend(b.objs.iter().map(|(u, c)| BusEvent::ObjectCreated(ObjectId::new(*u, *c))).filter(m));
                cur.extend(b.svcs.values().map(|s| BusEvent::ServiceCreated(*s)).filter(m));
            }
            let new: Vec<BusEvent> = if scope == BusListenerScope::Current {
                Vec::new()
            } else {
                st.hist[p..].iter().filter(|e| m(e)).copied().collect()
            };
            if l.got.len() == cur.len() + new.len()
                && l.got[cur.len()..] == new[..]
                && cur.iter().all(|e| l.got[..cur.len()].contains(e))
                && l.ended == want_end
            {
                return Ok(());
            }
        }
        let m = format!(
            "listener {idx} ({scope:?}, {:?}) got {:?} (ended: {}); history {:?}, started between {} and {hi}",
            l.filters, l.got, l.ended, st.hist, l.start
        );
        Err(Fail::new("listener", m))
    }

    fn check_disc(&self, idx: usize, disc: &Discoverer<u8>) -> R {
        let st = self.st.borrow();
        let d = &st.discs[idx];
        let hi = d.start_hi.unwrap_or(st.hist.len());
        let mut have: BTreeMap<(u8, ObjectUuid), (ObjectId, Vec<ServiceId>)> = BTreeMap::new();
        for (k, o, s) in &d.entries {
            for e in disc.entry_iter(*k) {
                let id = e.object_id();
                if have.insert((*k, id.uuid), (id, e.service_ids(s.iter().copied()))).is_some() {
                    return Err(Fail::new("discoverer-iter", format!("{id:?} twice for key {k}")));
                }
                let ev = DiscovererEvent::from(e);
                let arr = match s[..] {
                    [a] => Some(e.service_ids_n(&[a]).to_vec()),
                    [a, b] => Some(e.service_ids_n(&[a, b]).to_vec()),
                    _ => None,
                };
                let same = e.key() == *k
                    && (ev.key(), ev.is_created(), ev.is_destroyed(), ev.object_id()) == (*k, true, false, id)
                    && arr.is_none_or(|a| a == e.service_ids(s.iter().copied()))
                    && disc.object_id(*k, id.uuid) == Some(id)
                    && disc.contains(*k, id.uuid)
                    && s.iter().all(|s| disc.service_id(*k, id.uuid, *s) == Some(e.service_id(*s)));
                if !same {
                    return Err(Fail::new("discoverer-iter", format!("iterator and lookups disagree about {id:?}")));
                }
            }
            for u in (0..OBJS).map(ouuid) {
                let in_iter = have.contains_key(&(*k, u));
                // Asking a specific entry for another object's id is an error of the caller.
                let askable = o.is_none_or(|o| o == u);
                if disc.contains(*k, u) != in_iter || (askable && disc.object_id(*k, u).is_some() != in_iter) {
                    return Err(Fail::new("discoverer-iter", format!("iterator and contains disagree about {u:?} for key {k}")));
                }
                if askable {
                    let want = have.get(&(*k, u)).map(|x| x.1.clone());
                    let none: [ServiceUuid; 0] = [];
                    let same = disc.service_ids(*k, u, s.iter().copied()) == want
                        && disc.service_ids_n(*k, u, &none).is_some() == in_iter
                        && disc.service_ids(*k, u, none).is_some() == in_iter
                        && s.iter().all(|s| disc.service_id(*k, u, *s).is_some() == in_iter);
                    if !same {
                        return Err(Fail::new("discoverer-iter", format!("lookups of {u:?} for key {k} disagree with the iterator")));
                    }
                }
            }
            let entry = disc.entry(*k);
            if entry.key() != *k || disc.contains_any(*k) != entry.contains_any() || entry.iter().count() != entry.into_iter().count() {
                return Err(Fail::new("discoverer-iter", "an entry and its discoverer disagree"));
            }
            if disc.entry(*k).contains_any() != disc.entry_iter(*k).next().is_some() {
                return Err(Fail::new("discoverer-iter", "contains_any and the iterator disagree"));
            }
        }
        let keys: BTreeSet<u8> = disc.entries().map(|e| e.key()).collect();
        if disc.entries().len() != d.entries.len() || keys != d.entries.iter().map(|e| e.0).collect() {
            return Err(Fail::new("discoverer-iter", format!("entries() has the keys {keys:?}")));
        }
        let all: BTreeSet<(u8, ObjectId)> = disc.into_iter().map(|e| (e.key(), e.object_id())).collect();
        if all != have.iter().map(|(k, v)| (k.0, v.0)).collect() {
            return Err(Fail::new("discoverer-iter", format!("iter() has {all:?}, the entries have {have:?}")));
        }
        let total = disc.iter().count();
        if total != have.len() {
            return Err(Fail::new("discoverer-iter", format!("iter() has {total}, entries have {}", have.len())));
        }
        if disc.is_finished() != d.ended {
            return Err(Fail::new("discoverer-finished", format!("is_finished: {}, ended: {}", disc.is_finished(), d.ended)));
        }
        let mut why = String::new();
        'p: for p in d.start..=hi {
            for (k, o, s) in &d.entries {
                let mut b = fold(&st.hist[..p]);
                let got: Vec<(bool, ObjectId)> = d.got.iter().filter(|g| g.0 == *k).map(|g| (g.1, g.2)).collect();
                let mut m = b.matching(*o, s);
                let init: BTreeSet<_> = m.values().map(|x| (true, x.0)).collect();
                let mut want: Vec<(bool, ObjectId)> = Vec::new();
                if !d.current_only {
                    for e in &st.hist[p..] {
                        let _ = b.apply(e);
                        let n = b.matching(*o, s);
                        for (u, x) in &m {
                            if n.get(u).is_none_or(|y| y.0 != x.0) {
                                want.push((false, x.0));
                            }
                        }
                        for (u, x) in &n {
                            if m.get(u).is_none_or(|y| y.0 != x.0) {
                                want.push((true, x.0));
                            }
                        }
                        m = n;
                    }
                }
                if !d.waited
                    && (got.len() != init.len() + want.len()
                    || got[..init.len()].iter().copied().collect::<BTreeSet<_>>() != init
                    || got[init.len()..] != want[..])
                {
                    why = format!("key {k}: events are {got:?}, expected {init:?} and then {want:?}");
                    continue 'p;
                }
                let now: BTreeMap<_, _> =
                    have.iter().filter(|x| x.0 .0 == *k).map(|(x, y)| (x.1, y.clone())).collect();
                if now != m {
                    why = format!("key {k}: reports {now:?}, expected {m:?}");
                    continue 'p;
                }
            }
            if d.ended != (d.current_only || d.entries.is_empty()) {
                why = format!("ended: {}", d.ended);
                continue 'p;
            }
            return Ok(());
        }
        let m = format!(
            "discoverer {idx} {:?} (current only: {}): {why}; history {:?}, started between {} and {hi}",
            d.entries, d.current_only, st.hist, d.start
        );
        Err(Fail::new("discoverer", m))
    }
}

/// An error an operation returned although its client had no reason to stop.
pub fn shutdown_ok(st: &St, c: usize, e: Error) -> bool {
    e == Error::Shutdown && st.stopping(c)
}
