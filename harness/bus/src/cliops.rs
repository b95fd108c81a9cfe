//! Operations of generated programs over the public client API.
use crate::cli::*;
use crate::conv::raw_value;
use crate::tap::FAULTS;
use aldrin::low_level::{ServiceInfo, UnboundReceiver, UnboundSender};
use aldrin::{Error, Handle, Lifetime, LifetimeId, LifetimeScope};
use aldrin_core::introspection::{DynIntrospectable, Introspection};
use aldrin_core::{
    BusEvent, BusListenerFilter, BusListenerScope, ObjectCookie, ObjectId, ObjectUuid, ServiceId, ServiceUuid, TypeId,
};
use futures_util::future::FusedFuture;
use futures_util::stream::{FusedStream, StreamExt};
use std::collections::BTreeSet;
use std::task::{Context, Poll, Waker};
use vp::wire::{self, Epoch, N};
use vp::{fail, Fail, Src};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    CreateObject,
    DestroyObject,
    CreateService,
    CreateServices,
    DestroyService,
    CreateProxy,
    Call,
    WaitReply,
    NextCall,
    Answer,
    Aborted,
    Emit,
    Subscribe,
    Unsubscribe,
    UnsubscribeAll,
    NextEvent,
    CreateChan,
    Unbind,
    Bind,
    Claim,
    Establish,
    WaitEstablished,
    CloseEnd,
    Send,
    Recv,
    ReceiverClosed,
    CreateLis,
    Filter,
    StartLis,
    StopLis,
    NextBus,
    DestroyLis,
    CreateDisc,
    RestartDisc,
    NextDisc,
    Find,
    WaitFor,
    CreateScope,
    EndScope,
    CreateLifetime,
    Ended,
    SyncClient,
    SyncBroker,
    Version,
    RegisterIntro,
    QueryIntro,
    DropRes,
    Cancel,
    Shutdown,
    LastHandle,
    Fault,
    BrokerShutdown,
    Policy,
    Steps,
    Settle,
}
use Op::*;

/// What programs concentrate on.
const THEMES: [&[Op]; 6] = [
    &[CreateObject, CreateService, CreateProxy, Call, WaitReply, NextCall, Answer, Aborted],
    &[CreateObject, CreateService, CreateProxy, Subscribe, Emit, NextEvent, Unsubscribe, UnsubscribeAll],
    &[CreateChan, Unbind, Bind, Claim, Establish, WaitEstablished, Send, Recv, ReceiverClosed],
    &[CreateObject, DestroyObject, CreateService, DestroyService, CreateLis, Filter, StartLis, StopLis, NextBus],
    &[CreateObject, DestroyObject, CreateServices, CreateDisc, RestartDisc, NextDisc, Find, WaitFor],
    &[CreateObject, CreateScope, EndScope, CreateLifetime, Ended, RegisterIntro, QueryIntro],
];

/// How they may begin, so that there is something to be interested in.
const KICKOFF: [&[Op]; 6] = [
    &[CreateObject, CreateService, CreateProxy, CreateProxy, NextCall, Call],
    &[CreateObject, CreateService, CreateProxy, Subscribe, CreateProxy, Subscribe, Emit],
    &[CreateChan, Unbind, Bind, Claim, Establish, Send],
    &[CreateLis, Filter, StartLis, CreateObject, CreateService],
    &[CreateDisc, CreateObject, CreateServices],
    &[CreateScope, CreateLifetime, RegisterIntro],
];

/// What gets in the way.
const DISTURB: [Op; 7] = [Cancel, DropRes, CloseEnd, Shutdown, LastHandle, Fault, BrokerShutdown];

/// A type that refers to itself, through another one.
#[allow(dead_code)]
#[derive(Debug, aldrin::Tag, aldrin::Introspectable)]
#[aldrin(schema = "intro")]
struct Node {
    #[aldrin(id = 1)]
    edges: Vec<Edge>,
}

#[allow(dead_code)]
#[derive(Debug, aldrin::Tag, aldrin::Introspectable)]
#[aldrin(schema = "intro")]
enum Edge {
    #[aldrin(id = 3)]
    Back(Box<Node>),
    #[aldrin(id = 7)]
    Named(std::collections::HashMap<u16, String>),
}

/// Types to register for introspection.
pub fn intro_types() -> [DynIntrospectable; 4] {
    [
        DynIntrospectable::new::<Vec<String>>(),
        DynIntrospectable::new::<Option<u32>>(),
        DynIntrospectable::new::<Node>(),
        DynIntrospectable::new::<crate::api::Full>(),
    ]
}

/// Those types and everything they refer to.
fn intro_closure() -> Vec<DynIntrospectable> {
    let mut todo = intro_types().to_vec();
    let mut all: Vec<(TypeId, DynIntrospectable)> = Vec::new();
    while let Some(t) = todo.pop() {
        let id = TypeId::compute_from_dyn(t);
        if all.iter().all(|(i, _)| *i != id) {
            t.add_references(&mut aldrin_core::introspection::References::new(&mut todo));
            all.push((id, t));
        }
    }
    all.into_iter().map(|(_, t)| t).collect()
}

pub fn payload(src: &mut Src, tok: u64) -> (N, Vec<u8>) {
    let inner = if src.chance(1, 2) {
        N::U8(src.byte())
    } else {
        let mut budget = 8;
        let d = src.range(1, 3);
        wire::gen_value(src, d, &mut budget)
    };
    let n = N::Vec(vec![N::U64(tok), inner]);
    let e = *src.pick(&[Epoch::V2, Epoch::V1, Epoch::Mixed]);
    let b = wire::encode(src, &n, e, false);
    (n, b)
}

fn decode(b: &[u8]) -> R<N> {
    match wire::decode_prefix(b, false) {
        Ok((n, l)) if l == b.len() => Ok(n),
        x => fail!("payload", "{b:02x?} arrived and is no value ({x:?})"),
    }
}

fn bad<T>(sig: &str, m: String) -> R<T> {
    Err(Fail::new(sig, m))
}

/// An error with no better explanation: fine when the client is going down.
fn down(s: &St, c: usize, e: Error) -> R {
    if shutdown_ok(s, c, e) {
        return Ok(());
    }
    bad("result", format!("failed with {e:?} (stopping: {})", s.stopping(c)))
}

fn no_ok(dead: bool) -> R {
    if dead {
        return bad("ok-after-stop", "succeeded although its client had stopped before".into());
    }
    Ok(())
}

fn svc_result(
    s: &mut St,
    c: usize,
    h0: usize,
    dead: bool,
    obj: ObjectId,
    uuid: ServiceUuid,
    info: ServiceInfo,
    r: Result<aldrin::low_level::Service, Error>,
) -> R {
    match r {
        Ok(v) => {
            no_ok(dead)?;
            let id = v.id();
            if id.object_id != obj || id.uuid != uuid || v.version() != info.version() || v.type_id() != info.type_id() {
                return bad("result", format!("created {id:?} ({}) for {obj:?} {uuid:?} {info:?}", v.version()));
            }
            let idx = s.svcs.len();
            s.svcs.push(SvcR {
                client: c,
                id,
                info,
                destroy: 0,
                emitted: Vec::new(),
                last_call: Default::default(),
            });
            s.add(c, Res::Svc(v), idx);
            s.bump("services created");
            s.later(h0, format!("created service {id:?}"), move |h, lo, _| {
                let n = h.iter().skip(lo).filter(|e| **e == BusEvent::ServiceCreated(id)).count();
                (n == 1).then_some(()).ok_or_else(|| format!("it appeared {n} times"))
            });
            Ok(())
        }
        Err(Error::InvalidObject) => {
            s.later(h0, "create service: InvalidObject".into(), move |h, lo, hi| {
                any_state(h, lo, hi, |b| !b.has_obj(obj)).then_some(()).ok_or(format!("{obj:?} existed all along"))
            });
            Ok(())
        }
        Err(Error::DuplicateService) => {
            s.later(h0, "create service: DuplicateService".into(), move |h, lo, hi| {
                any_state(h, lo, hi, |b| b.svcs.contains_key(&(obj.uuid, uuid)))
                    .then_some(())
                    .ok_or(format!("there was no service {uuid:?} on {obj:?}"))
            });
            Ok(())
        }
        Err(e) => down(s, c, e),
    }
}

fn gone_svc(s: &mut St, h0: usize, what: &str, id: ServiceId) {
    s.later(h0, format!("{what}: InvalidService"), move |h, lo, hi| {
        any_state(h, lo, hi, |b| !b.has_svc(id)).then_some(()).ok_or(format!("{id:?} existed all along"))
    });
}

pub struct Profile {
    pub ops: &'static [(Op, u64)],
    pub setup: &'static [Op],
    pub len: (usize, usize),
}

fn subset(src: &mut Src) -> Vec<ServiceUuid> {
    let mut v: Vec<usize> = Vec::new();
    for i in 0..SVCS {
        if src.chance(2, 5) {
            v.push(i);
        }
    }
    if src.bool() {
        v.reverse();
    }
    v.into_iter().map(suuid).collect()
}

fn obj_filter(src: &mut Src) -> Option<ObjectUuid> {
    if src.chance(3, 5) {
        Some(ouuid(src.us(OBJS)))
    } else {
        None
    }
}

pub fn bus_filter(src: &mut Src) -> BusListenerFilter {
    match src.us(6) {
        0 => BusListenerFilter::any_object(),
        1 => BusListenerFilter::object(ouuid(src.us(OBJS))),
        2 => BusListenerFilter::any_object_any_service(),
        3 => BusListenerFilter::specific_object_any_service(ouuid(src.us(OBJS))),
        4 => BusListenerFilter::any_object_specific_service(suuid(src.us(SVCS))),
        _ => BusListenerFilter::specific_object_and_service(ouuid(src.us(OBJS)), suuid(src.us(SVCS))),
    }
}

impl W {
    fn h0(&self) -> usize {
        let mut s = self.st.borrow_mut();
        s.pull();
        s.hist.len()
    }

    pub fn client(&self, src: &mut Src) -> Option<usize> {
        if self.only_client.is_some() {
            return self.only_client;
        }
        let s = self.st.borrow();
        let v: Vec<_> = (0..s.cls.len()).filter(|c| s.cls[*c].handle.is_some()).collect();
        let live: Vec<_> = v.iter().copied().filter(|c| !s.stopped(*c)).collect();
        if v.is_empty() {
            None
        } else if !live.is_empty() && src.chance(9, 10) {
            Some(live[src.us(live.len())])
        } else {
            Some(v[src.us(v.len())])
        }
    }

    fn handle(&self, c: usize) -> Handle {
        self.st.borrow().cls[c].handle.clone().unwrap()
    }

    fn dead(&self, c: usize) -> bool {
        self.st.borrow().stopped(c)
    }

    /// A resource of one of the kinds; takes it away from an operation that only polls it.
    pub fn slot(&mut self, src: &mut Src, kinds: &[K]) -> Option<(usize, usize, usize)> {
        let v: Vec<usize> = {
            let s = self.st.borrow();
            (0..s.slots.len())
                .filter(|i| {
                    let x = &s.slots[*i];
                    kinds.contains(&x.kind) && self.only.is_none_or(|o| o == *i) && !x.gone && x.busy.is_none_or(|o| s.ops[o].steal)
                })
                .collect()
        };
        if v.is_empty() {
            return None;
        }
        // Prefer those that something can still happen to, and young ones.
        let hot: Vec<usize> = {
            let s = self.st.borrow();
            let svc_live = |v: usize| s.svcs[v].destroy == 0 && !s.stopping(s.svcs[v].client);
            v.iter()
                .copied()
                .filter(|i| match s.slots[*i].kind {
                    K::Svc => {
                        svc_live(s.slots[*i].idx)
                            && s.slots.iter().any(|x| {
                                x.kind == K::Proxy && !x.gone && s.prxs[x.idx].svc == s.slots[*i].idx && !s.stopping(x.client)
                            })
                    }
                    K::Proxy => svc_live(s.prxs[s.slots[*i].idx].svc) && !s.stopping(s.slots[*i].client),
                    _ => false,
                })
                .collect()
        };
        let v = if !hot.is_empty() && src.chance(3, 4) { hot } else { v };
        let i = if src.bool() { v[src.us(v.len())] } else { v[v.len() - 1 - src.us(v.len().min(3))] };
        let busy = self.st.borrow().slots[i].busy;
        if let Some(o) = busy {
            self.cancel_op(o);
        }
        let s = self.st.borrow();
        Some((i, s.slots[i].client, s.slots[i].idx))
    }

    /// Cancels an operation and keeps the books.
    pub fn cancel_op(&mut self, o: usize) {
        self.cancel(o);
        let mut s = self.st.borrow_mut();
        let Some(i) = s.ops[o].slot else { return };
        if !s.slots[i].gone {
            return;
        }
        let (kind, client, idx) = (s.slots[i].kind, s.slots[i].client, s.slots[i].idx);
        match kind {
            K::Reply => s.calls[idx].dropped = true,
            // The claim may have gone through.
            K::USnd => {
                s.unclaimed_dropped(idx, 0, client);
            }
            K::URcv => {
                s.unclaimed_dropped(idx, 1, client);
            }
            K::PSnd => s.chans[idx].ends[0].closing = true,
            K::PRcv => s.chans[idx].ends[1].closing = true,
            _ => {}
        }
    }

    pub fn drop_res(&mut self, i: usize) {
        let res = {
            let mut s = self.st.borrow_mut();
            s.slots[i].gone = true;
            s.note(|| format!("drop slot {i}"));
            let (kind, client, idx) = (s.slots[i].kind, s.slots[i].client, s.slots[i].idx);
            match kind {
                K::Obj | K::Scope => s.objs[idx].destroy |= 1,
                K::Svc => s.svcs[idx].destroy |= 1,
                K::Proxy => s.prxs[idx].finished = true,
                K::Reply => s.calls[idx].dropped = true,
                K::Call => {
                    if s.calls[idx].answer.is_none() {
                        s.calls[idx].answer = Some(Ans::Aborted);
                    }
                }
                K::USnd => s.unclaimed_dropped(idx, 0, client),
                K::URcv => s.unclaimed_dropped(idx, 1, client),
                K::PSnd | K::Snd => s.chans[idx].ends[0].closing = true,
                K::PRcv | K::Rcv => s.chans[idx].ends[1].closing = true,
                _ => {}
            }
            s.slots[i].res.take()
        };
        drop(res);
    }

    pub fn token(&self) -> u64 {
        let mut s = self.st.borrow_mut();
        s.next_tok += 1;
        s.next_tok - 1
    }

    pub fn apply(&mut self, src: &mut Src, op: Op) -> R {
        let st = self.st.clone();
        match op {
            Steps => {
                let n = src.range(1, 40);
                return self.steps(src, n);
            }
            Settle => return self.settle(src),
            Policy => self.pick_policy(src),
            Cancel => {
                let v: Vec<usize> = {
                    let s = st.borrow();
                    (0..s.ops.len()).filter(|o| !s.ops[*o].done && s.ops[*o].name != "keep").collect()
                };
                if !v.is_empty() {
                    let o = v[src.us(v.len())];
                    self.cancel_op(o);
                }
            }
            DropRes => {
                let all = [
                    K::Obj,
                    K::Scope,
                    K::Svc,
                    K::Proxy,
                    K::Reply,
                    K::Call,
                    K::USnd,
                    K::URcv,
                    K::PSnd,
                    K::PRcv,
                    K::Snd,
                    K::Rcv,
                    K::Lst,
                    K::Disc,
                    K::Life,
                ];
                if let Some((i, _, _)) = self.slot(src, &all) {
                    self.drop_res(i);
                    st.borrow_mut().bump("resources dropped");
                }
            }
            CreateObject => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let u = ouuid(src.us(OBJS));
                let (h, h0, dead) = (self.handle(c), self.h0(), self.dead(c));
                self.go("create object", c, Excuse::Never, false, None, async move {
                    let r = h.create_object(u).await;
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(o) => {
                            no_ok(dead)?;
                            let id = o.id();
                            if id.uuid != u {
                                return bad("result", format!("created {id:?} for {u:?}"));
                            }
                            let idx = s.objs.len();
                            s.objs.push(ObjR { client: c, id, life: o.lifetime_id(), destroy: 0 });
                            s.add(c, Res::Obj(o), idx);
                            s.bump("objects created");
                            s.later(h0, format!("created object {id:?}"), move |h, lo, _| {
                                let n = h.iter().skip(lo).filter(|e| **e == BusEvent::ObjectCreated(id)).count();
                                (n == 1).then_some(()).ok_or_else(|| format!("it appeared {n} times"))
                            });
                            Ok(())
                        }
                        Err(Error::DuplicateObject) => {
                            s.later(h0, "create object: DuplicateObject".into(), move |h, lo, hi| {
                                any_state(h, lo, hi, |b| b.objs.contains_key(&u))
                                    .then_some(())
                                    .ok_or(format!("there was no object {u:?}"))
                            });
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            CreateScope => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let (h, dead) = (self.handle(c), self.dead(c));
                let alias = src.bool();
                self.go("create scope", c, Excuse::Never, false, None, async move {
                    let r = if alias { LifetimeScope::new(&h).await } else { h.create_lifetime_scope().await };
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(o) => {
                            no_ok(dead)?;
                            let life = o.id();
                            let id = life_object(life);
                            let idx = s.objs.len();
                            s.objs.push(ObjR { client: c, id, life, destroy: 0 });
                            s.add(c, Res::Scope(o), idx);
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            DestroyObject | EndScope => {
                let k = if op == EndScope { K::Scope } else { K::Obj };
                let Some((i, c, idx)) = self.slot(src, &[k]) else { return Ok(()) };
                let (h0, dead) = (self.h0(), self.dead(c));
                st.borrow_mut().objs[idx].destroy |= 1;
                self.go("destroy object", c, Excuse::Never, false, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    let r = if k == K::Scope { l.scope().end().await } else { l.obj().destroy().await };
                    drop(l);
                    let mut s = st.borrow_mut();
                    let id = s.objs[idx].id;
                    match r {
                        Ok(()) => {
                            no_ok(dead)?;
                            if s.objs[idx].destroy == 2 {
                                return bad("destroyed-twice", format!("{id:?} was destroyed before"));
                            }
                            s.objs[idx].destroy = 2;
                            Ok(())
                        }
                        Err(Error::InvalidObject | Error::InvalidLifetime) => {
                            s.objs[idx].destroy = 2;
                            s.later(h0, "destroy object: InvalidObject".into(), move |h, lo, hi| {
                                any_state(h, lo, hi, |b| !b.has_obj(id)).then_some(()).ok_or(format!("{id:?} existed all along"))
                            });
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            CreateService | CreateServices => {
                let Some((i, c, idx)) = self.slot(src, &[K::Obj]) else { return Ok(()) };
                let (h0, dead) = (self.h0(), self.dead(c));
                let mk = |src: &mut Src| {
                    let mut info = ServiceInfo::new(src.below(4) as u32);
                    if src.bool() {
                        info = info.set_type_id(TypeId(uuid::Uuid::from_bytes([7; 16])));
                    }
                    (suuid(src.us(SVCS)), info)
                };
                let (u1, i1) = mk(src);
                let (u2, i2) = mk(src);
                let kill = op == CreateServices && src.chance(1, 4);
                let obj = st.borrow().objs[idx].id;
                if kill {
                    st.borrow_mut().objs[idx].destroy |= 1;
                }
                if op == CreateService {
                    self.go("create service", c, Excuse::Never, false, Some(i), async move {
                        let mut l = Lease::take(&st, i);
                        let r = l.obj().create_service(u1, i1).await;
                        drop(l);
                        svc_result(&mut st.borrow_mut(), c, h0, dead, obj, u1, i1, r)
                    });
                } else {
                    self.go("create services", c, Excuse::Never, false, Some(i), async move {
                        let mut l = Lease::take(&st, i);
                        let o: &aldrin::Object = l.obj();
                        let (a, b, k) = futures_util::join!(o.create_service(u1, i1), o.create_service(u2, i2), async {
                            if kill {
                                Some(o.destroy().await)
                            } else {
                                None
                            }
                        });
                        drop(l);
                        let mut s = st.borrow_mut();
                        if matches!(k, Some(Ok(()))) {
                            s.objs[idx].destroy = 2;
                        }
                        svc_result(&mut s, c, h0, dead, obj, u1, i1, a)?;
                        svc_result(&mut s, c, h0, dead, obj, u2, i2, b)
                    });
                }
            }
            DestroyService => {
                let Some((i, c, idx)) = self.slot(src, &[K::Svc]) else { return Ok(()) };
                let (h0, dead) = (self.h0(), self.dead(c));
                st.borrow_mut().svcs[idx].destroy |= 1;
                self.go("destroy service", c, Excuse::Never, false, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    let r = l.svc().destroy().await;
                    drop(l);
                    let mut s = st.borrow_mut();
                    let id = s.svcs[idx].id;
                    match r {
                        Ok(()) => {
                            no_ok(dead)?;
                            if s.svcs[idx].destroy == 2 {
                                return bad("destroyed-twice", format!("{id:?} was destroyed before"));
                            }
                            s.svcs[idx].destroy = 2;
                            Ok(())
                        }
                        Err(Error::InvalidService) => {
                            gone_svc(&mut s, h0, "destroy service", id);
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            CreateProxy => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let n = st.borrow().svcs.len();
                if n == 0 {
                    return Ok(());
                }
                let v = if src.chance(2, 3) { n - 1 - src.us(n.min(3)) } else { src.us(n) };
                let v = {
                    let s = st.borrow();
                    let live: Vec<usize> = (0..n).filter(|v| s.svcs[*v].destroy == 0 && !s.stopping(s.svcs[*v].client)).collect();
                    if !live.is_empty() && src.chance(5, 6) { live[src.us(live.len())] } else { v }
                };
                let id = st.borrow().svcs[v].id;
                let (h, h0, dead) = (self.handle(c), self.h0(), self.dead(c));
                self.go("create proxy", c, Excuse::Never, false, None, async move {
                    let r = h.create_proxy(id).await;
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(p) => {
                            no_ok(dead)?;
                            let (own, other, info) = (s.cls[c].minor, s.cls[s.svcs[v].client].minor, s.svcs[v].info);
                            let ty = if own >= 17 && other >= 17 { info.type_id() } else { None };
                            let all = own >= 17 && other >= 18;
                            if p.id() != id
                                || p.version() != info.version()
                                || p.type_id() != ty
                                || p.can_subscribe_all() != all
                            {
                                let m = format!(
                                    "proxy of {id:?} {info:?} (1.{other} seen from 1.{own}): {:?} {} {:?} {}",
                                    p.id(),
                                    p.version(),
                                    p.type_id(),
                                    p.can_subscribe_all()
                                );
                                return bad("proxy-info", m);
                            }
                            let idx = s.prxs.len();
                            s.prxs.push(PrxR {
                                client: c,
                                svc: v,
                                all,
                                subs: Default::default(),
                                last: None,
                                must: Default::default(),
                                finished: false,
                            });
                            s.add(c, Res::Proxy(p), idx);
                            s.bump("proxies created");
                            s.later(h0, "create proxy: Ok".into(), move |h, lo, hi| {
                                any_state(h, lo, hi, |b| b.has_svc(id)).then_some(()).ok_or(format!("{id:?} did not exist"))
                            });
                            Ok(())
                        }
                        Err(Error::InvalidService) => {
                            gone_svc(&mut s, h0, "create proxy", id);
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            Call => {
                let Some((i, c, p)) = self.slot(src, &[K::Proxy]) else { return Ok(()) };
                for _ in 0..src.range(1, 3) {
                    let tok = self.token();
                    let (arg, b) = payload(src, tok);
                    let func = src.below(3) as u32;
                    let ver = *src.pick(&[None, Some(0), Some(7)]);
                    let mut s = st.borrow_mut();
                    let Some(Res::Proxy(x)) = &s.slots[i].res else { return Ok(()) };
                    let r = x.call(func, raw_value(&b), ver);
                    if r.id() != func || r.version() != ver {
                        return bad("pending-reply", format!("{} {:?} for {func} {ver:?}", r.id(), r.version()));
                    }
                    let svc = s.prxs[p].svc;
                    let idx = s.calls.len();
                    s.calls.push(CallR {
                        caller: c,
                        svc,
                        func,
                        ver,
                        arg,
                        delivered: false,
                        dropped: false,
                        answer: None,
                        resolved: false,
                    });
                    let x = s.add(c, Res::Reply(r), idx);
                    s.note(|| format!("client {c} calls {func} of service {svc}: call {idx} (slot {x})"));
                    s.bump("calls");
                }
            }
            WaitReply => {
                let Some((i, c, idx)) = self.slot(src, &[K::Reply]) else { return Ok(()) };
                let h0 = 0;
                self.go("wait for reply", c, Excuse::Reply(idx), false, Some(i), async move {
                    let l = Lease::take(&st, i);
                    let Res::Reply(p) = l.consume() else { return Ok(()) };
                    let r = p.await;
                    let mut s = st.borrow_mut();
                    s.calls[idx].resolved = true;
                    let (id, ans, func) = (s.svcs[s.calls[idx].svc].id, s.calls[idx].answer.clone(), s.calls[idx].func);
                    let got = match r {
                        Ok(r) => {
                            if r.id() != func {
                                return bad("reply", format!("function {} instead of {func}", r.id()));
                            }
                            match r.args() {
                                Ok(b) => Ans::Ok(decode(b)?),
                                Err(b) => Ans::Err(decode(b)?),
                            }
                        }
                        Err(Error::CallAborted) => Ans::Aborted,
                        Err(Error::InvalidFunction(e)) if e.id() == func => Ans::InvalidFunction,
                        Err(Error::InvalidArguments(e)) if e.id() == func => Ans::InvalidArgs,
                        Err(Error::InvalidService) => {
                            gone_svc(&mut s, h0, "reply", id);
                            s.bump("replies: invalid service");
                            return Ok(());
                        }
                        Err(e) => return down(&s, c, e),
                    };
                    s.bump("replies");
                    if ans.as_ref() != Some(&got) {
                        return bad("reply", format!("call {idx} was answered with {ans:?}, the reply is {got:?}"));
                    }
                    Ok(())
                });
            }
            NextCall => {
                let Some((i, c, idx)) = self.slot(src, &[K::Svc]) else { return Ok(()) };
                let h0 = self.h0();
                let n = src.range(1, 5);
                let stream = src.bool();
                self.go("next call", c, Excuse::NextCall(idx), true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    for _ in 0..n {
                        let r = if stream { StreamExt::next(l.svc()).await } else { l.svc().next_call().await };
                        let mut s = st.borrow_mut();
                        let Some(call) = r else {
                            if !l.svc().is_terminated() {
                                return bad("calls-finished", "is_terminated is false after None".into());
                            }
                            let (id, stop) = (s.svcs[idx].id, s.stopping(c));
                            if !stop {
                                s.later(h0, "no more calls".into(), move |h, _, hi| {
                                    any_state(h, hi, hi, |b| !b.has_svc(id)).then_some(()).ok_or(format!("{id:?} exists"))
                                });
                            }
                            return Ok(());
                        };
                        let arg = decode(call.args())?;
                        let Some(k) = s.calls.iter().position(|x| x.arg == arg) else {
                            return bad("call", format!("a call with arguments {arg:?} was never made"));
                        };
                        let own = s.cls[c].minor;
                        let x = &s.calls[k];
                        let ver = if own >= 19 && s.cls[x.caller].minor >= 19 { x.ver } else { None };
                        if x.delivered || x.svc != idx || x.func != call.id() || ver != call.version() || call.service() != s.svcs[idx].id
                        {
                            let m = format!(
                                "call {k} ({} {:?} of service {}; delivered before: {}) arrives at service {idx} as {} {:?}",
                                x.func,
                                x.ver,
                                x.svc,
                                x.delivered,
                                call.id(),
                                call.version()
                            );
                            return bad("call", m);
                        }
                        let caller = x.caller;
                        s.calls[k].delivered = true;
                        if let Some(last) = s.svcs[idx].last_call.insert(caller, k) {
                            if last > k {
                                return bad("call-order", format!("call {k} arrives after call {last} of the same client"));
                            }
                        }
                        s.bump("calls delivered");
                        s.add(c, Res::Call(call), k);
                    }
                    Ok(())
                });
            }
            Answer => {
                let Some((i, c, idx)) = self.slot(src, &[K::Call]) else { return Ok(()) };
                let tok = self.token();
                let (n, b) = payload(src, tok);
                let how = src.us(7);
                let res = {
                    let mut s = st.borrow_mut();
                    s.slots[i].gone = true;
                    s.slots[i].res.take()
                };
                let Some(Res::Call(call)) = res else { return Ok(()) };
                let (r, a) = match how {
                    0..=2 => (call.ok(raw_value(&b)), Ans::Ok(n)),
                    3 => (call.err(raw_value(&b)), Ans::Err(n)),
                    4 => (call.abort(), Ans::Aborted),
                    5 => (call.invalid_function(), Ans::InvalidFunction),
                    _ => (call.invalid_args(), Ans::InvalidArgs),
                };
                let mut s = st.borrow_mut();
                s.note(|| format!("client {c} answers call {idx}: {a:?}: {r:?}"));
                match r {
                    Ok(()) => {
                        s.calls[idx].answer = Some(a);
                        s.bump("calls answered");
                    }
                    Err(e) => down(&s, c, e)?,
                }
            }
            Aborted => {
                let Some((i, c, idx)) = self.slot(src, &[K::Call]) else { return Ok(()) };
                let h0 = self.h0();
                self.go("aborted", c, Excuse::Aborted(idx), true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    l.call().aborted().await;
                    if !l.call().is_aborted() {
                        return bad("aborted", "is_aborted is false after aborted".into());
                    }
                    drop(l);
                    let mut s = st.borrow_mut();
                    let x = &s.calls[idx];
                    let id = s.svcs[x.svc].id;
                    let why = x.dropped || s.stopping(x.caller) || s.stopping(c);
                    s.bump("aborts seen");
                    if !why {
                        s.later(h0, format!("call {idx} is aborted"), move |h, lo, hi| {
                            any_state(h, lo, hi, |b| !b.has_svc(id)).then_some(()).ok_or("nobody aborted it".into())
                        });
                    }
                    Ok(())
                });
            }
            Emit => {
                let Some((i, c, idx)) = self.slot(src, &[K::Svc]) else { return Ok(()) };
                for _ in 0..src.range(1, 3) {
                    let tok = self.token();
                    let (n, b) = payload(src, tok);
                    let ev = src.below(3) as u32;
                    let mut s = st.borrow_mut();
                    let Some(Res::Svc(v)) = &s.slots[i].res else { return Ok(()) };
                    let r = v.emit(ev, raw_value(&b));
                    s.note(|| format!("service {idx} emits event {ev}: token {tok}: {r:?}"));
                    s.bump("events emitted");
                    match r {
                        Ok(()) => s.emitted(idx, ev, n),
                        Err(e) => down(&s, c, e)?,
                    }
                }
            }
            Subscribe => {
                let Some((i, c, p)) = self.slot(src, &[K::Proxy]) else { return Ok(()) };
                let k = if src.chance(1, 3) { None } else { Some(src.below(3) as u32) };
                let (h0, dead) = (self.h0(), self.dead(c));
                st.borrow_mut().sub_begin(p, k);
                self.go(if k.is_some() { "subscribe" } else { "subscribe all" }, c, Excuse::Never, false, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    let r = match k {
                        Some(e) => l.proxy().subscribe(e).await,
                        None => l.proxy().subscribe_all().await,
                    };
                    drop(l);
                    let mut s = st.borrow_mut();
                    let id = s.svcs[s.prxs[p].svc].id;
                    let own = s.cls[c].minor;
                    match r {
                        Ok(()) => {
                            no_ok(dead)?;
                            if k.is_none() && (!s.prxs[p].all || own < 18) {
                                return bad("result", "subscribed to all events although that is not supported".into());
                            }
                            let e = s.epoch;
                            s.prxs[p].subs.get_mut(&k).unwrap().firm = Some(e);
                            s.bump("subscriptions");
                            Ok(())
                        }
                        Err(Error::InvalidService) => {
                            gone_svc(&mut s, h0, "subscribe", id);
                            Ok(())
                        }
                        Err(Error::NotSupported) if k.is_none() && (!s.prxs[p].all || own < 18) => {
                            s.prxs[p].subs.remove(&k);
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            Unsubscribe | UnsubscribeAll => {
                let Some((i, c, p)) = self.slot(src, &[K::Proxy]) else { return Ok(()) };
                let ev = src.below(3) as u32;
                let all = op == UnsubscribeAll;
                let (h0, dead) = (self.h0(), self.dead(c));
                {
                    let mut s = st.borrow_mut();
                    s.prxs[p].must.clear();
                    for (k, x) in s.prxs[p].subs.iter_mut() {
                        if all || *k == Some(ev) {
                            x.firm = None;
                        }
                    }
                }
                self.go(if all { "unsubscribe all" } else { "unsubscribe" }, c, Excuse::Never, false, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    let r = if all { l.proxy().unsubscribe_all().await } else { l.proxy().unsubscribe(ev).await };
                    drop(l);
                    let mut s = st.borrow_mut();
                    let id = s.svcs[s.prxs[p].svc].id;
                    match r {
                        Ok(()) => {
                            no_ok(dead)?;
                            let e = s.epoch;
                            for (k, x) in s.prxs[p].subs.iter_mut() {
                                if all || *k == Some(ev) {
                                    x.ended = Some(e);
                                }
                            }
                            s.bump("unsubscriptions");
                            Ok(())
                        }
                        Err(Error::InvalidService) => {
                            gone_svc(&mut s, h0, "unsubscribe", id);
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            NextEvent => {
                let Some((i, c, p)) = self.slot(src, &[K::Proxy]) else { return Ok(()) };
                let h0 = self.h0();
                let n = src.range(1, 4);
                let stream = src.bool();
                self.go("next event", c, Excuse::NextEvent(p), true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    for _ in 0..n {
                        let r = if stream { StreamExt::next(l.proxy()).await } else { l.proxy().next_event().await };
                        let mut s = st.borrow_mut();
                        let v = s.prxs[p].svc;
                        let id = s.svcs[v].id;
                        let Some(e) = r else {
                            if !l.proxy().events_finished() || !l.proxy().is_terminated() {
                                return bad("events-finished", "false after None".into());
                            }
                            if !s.stopping(c) {
                                s.prxs[p].finished = true;
                                if let Some(m) = s.prxs[p].must.first() {
                                    if !s.stopping(s.svcs[v].client) {
                                        return bad("event-lost", format!("event #{m} of the service was never delivered"));
                                    }
                                }
                                s.later(h0, "no more events".into(), move |h, _, hi| {
                                    any_state(h, hi, hi, |b| !b.has_svc(id)).then_some(()).ok_or(format!("{id:?} exists"))
                                });
                            }
                            return Ok(());
                        };
                        let val = decode(e.args())?;
                        let Some(k) = s.svcs[v].emitted.iter().position(|x| x.val == val) else {
                            return bad("event", format!("an event {val:?} was never emitted by the service"));
                        };
                        let em = &s.svcs[v].emitted[k];
                        if em.ev != e.id() || e.service() != id {
                            return bad("event", format!("event {} arrives as event {} of {:?}", em.ev, e.id(), e.service()));
                        }
                        if s.prxs[p].last.is_some_and(|l| l >= k) {
                            return bad("event-order", format!("event #{k} arrives after #{:?}", s.prxs[p].last));
                        }
                        let ok = [Some(em.ev), None].iter().any(|x| {
                            s.prxs[p].subs.get(x).is_some_and(|y| y.begun && y.ended.is_none_or(|z| em.epoch <= z))
                        });
                        if !ok {
                            return bad("event", format!("event {} arrives, subscribed to {:?}", em.ev, s.prxs[p].subs.keys()));
                        }
                        s.prxs[p].last = Some(k);
                        // Those before it will not come any more.
                        let lost = s.prxs[p].must.iter().find(|x| **x < k).copied();
                        if let (Some(m), false) = (lost, s.stopping(c)) {
                            return bad("event-lost", format!("event #{m} of the service was skipped, #{k} arrived"));
                        }
                        s.prxs[p].must.remove(&k);
                        s.bump("events delivered");
                    }
                    Ok(())
                });
            }
            CreateChan => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let sender = src.bool();
                let cap = *src.pick(&[1u32, 4, 5, 0, 2, 3, 8, 16, 9]);
                let (h, dead) = (self.handle(c), self.dead(c));
                self.go("create channel", c, Excuse::Never, false, None, async move {
                    let b = h.create_low_level_channel();
                    let (cookie, x, y) = if sender {
                        match b.claim_sender().await {
                            Ok((x, y)) if x.cookie() == y.cookie() => (x.cookie(), Res::PSnd(x), Res::URcv(y)),
                            Ok(_) => return bad("result", "two cookies".into()),
                            Err(e) => return down(&st.borrow(), c, e),
                        }
                    } else {
                        match b.claim_receiver(cap).await {
                            Ok((x, y)) if x.cookie() == y.cookie() => (x.cookie(), Res::PRcv(y), Res::USnd(x)),
                            Ok(_) => return bad("result", "two cookies".into()),
                            Err(e) => return down(&st.borrow(), c, e),
                        }
                    };
                    let mut s = st.borrow_mut();
                    no_ok(dead)?;
                    let idx = s.chans.len();
                    if s.chans.iter().any(|c| c.cookie == cookie) {
                        return bad("result", "channel cookie used before".into());
                    }
                    let m = cap.max(1);
                    let mut ch = ChanR {
                        cookie,
                        ends: Default::default(),
                        cap: 0,
                        sent: Vec::new(),
                        got: 0,
                        granted: 0,
                        may: 0,
                        cur: 0,
                    };
                    ch.ends[if sender { 0 } else { 1 }].claimed = Some(c);
                    if !sender {
                        ch.cap = m;
                        ch.granted = m as u64;
                        ch.cur = m;
                    }
                    s.chans.push(ch);
                    s.add(c, x, idx);
                    s.add(c, y, idx);
                    s.bump("channels created");
                    Ok(())
                });
            }
            Unbind => {
                let Some((i, _, ch)) = self.slot(src, &[K::USnd, K::URcv]) else { return Ok(()) };
                let mut s = st.borrow_mut();
                s.slots[i].gone = true;
                let (cookie, end) = match s.slots[i].res.take() {
                    Some(Res::USnd(x)) => (x.unbind().cookie(), 0),
                    Some(Res::URcv(x)) => (x.unbind().cookie(), 1),
                    _ => return Ok(()),
                };
                s.note(|| format!("slot {i}: unbind end {end} of channel {ch}"));
                if cookie != s.chans[ch].cookie {
                    return bad("unbind", "another cookie".into());
                }
                s.chans[ch].ends[end].published = true;
            }
            Bind => {
                let v: Vec<(usize, usize)> = {
                    let s = st.borrow();
                    (0..s.chans.len()).flat_map(|c| [(c, 0), (c, 1)]).filter(|(c, e)| s.chans[*c].ends[*e].published).collect()
                };
                let Some(c) = self.client(src) else { return Ok(()) };
                if v.is_empty() {
                    return Ok(());
                }
                let (ch, end) = v[v.len() - 1 - src.us(v.len().min(4))];
                let h = self.handle(c);
                let again = src.chance(1, 8);
                let mut s = st.borrow_mut();
                if again {
                    s.chans[ch].ends[end].shared = true;
                } else {
                    s.chans[ch].ends[end].published = false;
                }
                let cookie = s.chans[ch].cookie;
                let r = if end == 0 {
                    Res::USnd(UnboundSender::new(cookie).bind(h))
                } else {
                    Res::URcv(UnboundReceiver::new(cookie).bind(h))
                };
                let i = s.add(c, r, ch);
                s.note(|| format!("client {c} binds end {end} of channel {ch}: slot {i} (again: {again})"));
            }
            Claim => {
                let Some((i, c, ch)) = self.slot(src, &[K::USnd, K::URcv]) else { return Ok(()) };
                let cap = *src.pick(&[1u32, 4, 5, 0, 2, 3, 8, 16, 9]);
                let dead = self.dead(c);
                self.go("claim", c, Excuse::Never, false, Some(i), async move {
                    let l = Lease::take(&st, i);
                    let t0 = st.borrow().t;
                    {
                        let end = if st.borrow().slots[i].kind == K::USnd { 0 } else { 1 };
                        st.borrow_mut().chans[ch].ends[end].tries.push(c);
                        let m = &mut st.borrow_mut().chans[ch].may;
                        *m = (*m).max(cap.max(1) as u64);
                    }
                    let (end, r) = match l.consume() {
                        Res::USnd(x) => (0, x.claim().await.map(Res::Snd)),
                        Res::URcv(x) => (1, x.claim(cap).await.map(Res::Rcv)),
                        _ => return Ok(()),
                    };
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(x) => {
                            no_ok(dead)?;
                            s.claim_ok(ch, end, c, t0);
                            if end == 1 {
                                let m = cap.max(1);
                                let r = &mut s.chans[ch];
                                r.cap = m;
                                r.cur = m;
                                r.granted = m as u64;
                            }
                            s.add(c, x, ch);
                            s.bump("claims");
                            Ok(())
                        }
                        Err(Error::InvalidChannel) => {
                            let own = &s.chans[ch].ends[end];
                            let why = own.shared
                                || own.claimed.is_some()
                                || own.closing
                                || s.end_may_be_closed(ch, 1 - end);
                            s.bump("claims failed");
                            if !why {
                                return bad("claim", format!("end {end} of channel {ch} could not be claimed"));
                            }
                            Ok(())
                        }
                        Err(e) => {
                            // The broker may well have processed it.
                            s.chans[ch].ends[end].shared = true;
                            down(&s, c, e)
                        }
                    }
                });
            }
            Establish => {
                let Some((i, c, ch)) = self.slot(src, &[K::PSnd, K::PRcv]) else { return Ok(()) };
                let end = if st.borrow().slots[i].kind == K::PSnd { 0 } else { 1 };
                self.go("establish", c, Excuse::Establish(ch, end), false, Some(i), async move {
                    let l = Lease::take(&st, i);
                    let r = match l.consume() {
                        Res::PSnd(x) => x.establish().await.map(Res::Snd),
                        Res::PRcv(x) => x.establish().await.map(Res::Rcv),
                        _ => return Ok(()),
                    };
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(x) => {
                            s.add(c, x, ch);
                            s.bump("established");
                            Ok(())
                        }
                        Err(e) => {
                            let was = std::mem::replace(&mut s.chans[ch].ends[end].closing, true);
                            if e == Error::InvalidChannel {
                                if !s.end_may_be_closed(ch, 1 - end) && !s.chans[ch].ends[1 - end].shared {
                                    return bad("establish", format!("failed although end {} was not closed", 1 - end));
                                }
                                return Ok(());
                            }
                            // Pending ends that were closed before report this, too.
                            if e == Error::Shutdown && was {
                                return Ok(());
                            }
                            down(&s, c, e)
                        }
                    }
                });
            }
            WaitEstablished => {
                let Some((i, c, ch)) = self.slot(src, &[K::PSnd, K::PRcv]) else { return Ok(()) };
                let end = if st.borrow().slots[i].kind == K::PSnd { 0 } else { 1 };
                self.go("wait established", c, Excuse::Establish(ch, end), true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    if end == 0 {
                        l.psnd().wait_established().await
                    } else {
                        l.prcv().wait_established().await
                    }
                    Ok(())
                });
            }
            CloseEnd => {
                let kinds = [K::USnd, K::URcv, K::PSnd, K::PRcv, K::Snd, K::Rcv];
                let Some((i, c, ch)) = self.slot(src, &kinds) else { return Ok(()) };
                let dead = self.dead(c);
                let kind = st.borrow().slots[i].kind;
                self.go("close", c, Excuse::Never, false, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    let fresh;
                    {
                        let mut s = st.borrow_mut();
                        let e = if matches!(kind, K::USnd | K::PSnd | K::Snd) { 0 } else { 1 };
                        fresh = !std::mem::replace(&mut s.slots[i].tried, true);
                        if matches!(kind, K::USnd | K::URcv) {
                            s.unclaimed_dropped(ch, e, c);
                        } else {
                            s.chans[ch].ends[e].closing = true;
                        }
                    }
                    let r = match kind {
                        K::USnd => l.usnd().close().await,
                        K::URcv => l.urcv().close().await,
                        K::PSnd => l.psnd().close().await,
                        K::PRcv => l.prcv().close().await,
                        K::Snd => l.snd().close().await,
                        _ => l.rcv().close().await,
                    };
                    drop(l);
                    let s = st.borrow();
                    match r {
                        Ok(()) if fresh => no_ok(dead),
                        Ok(()) => Ok(()),
                        Err(Error::InvalidChannel) if matches!(kind, K::USnd | K::URcv) => Ok(()),
                        Err(Error::InvalidChannel) if s.chans[ch].ends.iter().any(|e| e.shared) => Ok(()),
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            Send => {
                let Some((i, c, ch)) = self.slot(src, &[K::Snd]) else { return Ok(()) };
                let mut items = Vec::new();
                for _ in 0..src.range(1, 6) {
                    let tok = self.token();
                    items.push(payload(src, tok));
                }
                self.go("send", c, Excuse::SendReady(ch), true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    for (n, b) in items {
                        let r = l.snd().send_ready().await;
                        let mut s = st.borrow_mut();
                        let r = match r {
                            Ok(()) => {
                                let x = &s.chans[ch];
                                let limit = if x.ends[1].claimed.is_some() { x.granted } else { x.may };
                                if x.sent.len() as u64 >= limit && !x.ends[1].shared {
                                    return bad("over-send", format!("{limit} granted"));
                                }
                                l.snd().start_send_serialized(raw_value(&b))
                            }
                            Err(e) => Err(e),
                        };
                        match r {
                            Ok(()) => {
                                s.chans[ch].sent.push(n);
                                s.bump("items sent");
                            }
                            Err(Error::InvalidChannel)
                                if s.end_may_be_closed(ch, 1)
                                    || s.end_may_be_closed(ch, 0)
                                    || s.chans[ch].ends.iter().any(|e| e.shared) =>
                            {
                                return Ok(())
                            }
                            Err(e) => return down(&s, c, e),
                        }
                    }
                    Ok(())
                });
            }
            ReceiverClosed => {
                let Some((i, c, ch)) = self.slot(src, &[K::Snd]) else { return Ok(()) };
                self.go("receiver closed", c, Excuse::PeerClosed(ch), true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    l.snd().receiver_closed().await;
                    drop(l);
                    let s = st.borrow();
                    if s.end_may_be_closed(ch, 1) || s.end_may_be_closed(ch, 0) || s.chans[ch].ends.iter().any(|e| e.shared) {
                        return Ok(());
                    }
                    bad("receiver-closed", format!("the receiver of channel {ch} was not closed"))
                });
            }
            Recv => {
                let Some((i, c, ch)) = self.slot(src, &[K::Rcv]) else { return Ok(()) };
                let n = src.range(1, 8);
                self.go("receive", c, Excuse::NextItem(ch), true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    for _ in 0..n {
                        let r = l.rcv().next_serialized().await;
                        let mut s = st.borrow_mut();
                        let shared = s.chans[ch].ends.iter().any(|e| e.shared);
                        let Some(item) = r else {
                            let left = s.chans[ch].got < s.chans[ch].sent.len();
                            let closed = s.end_may_be_closed(ch, 0);
                            if s.stopping(c) || s.chans[ch].ends[1].closing || shared {
                                return Ok(());
                            }
                            if !closed {
                                return bad("items-end", format!("channel {ch} ended although its sender was not closed"));
                            }
                            let owner = s.chans[ch].ends[0].claimed;
                            if left && !owner.is_some_and(|o| s.stopping(o)) {
                                let m = format!("{} of {} items arrived", s.chans[ch].got, s.chans[ch].sent.len());
                                return bad("items-lost", m);
                            }
                            return Ok(());
                        };
                        let val = decode(&item)?;
                        let x = &mut s.chans[ch];
                        if x.sent.get(x.got) != Some(&val) {
                            let m = format!("item {} of channel {ch} is {val:?}, sent were {:?}", x.got, x.sent);
                            return bad("item", m);
                        }
                        x.got += 1;
                        x.cur -= 1;
                        if x.cur <= 4 {
                            x.granted += (x.cap - x.cur) as u64;
                            x.cur = x.cap;
                        }
                        s.bump("items received");
                    }
                    Ok(())
                });
            }
            CreateLis => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let (h, dead) = (self.handle(c), self.dead(c));
                self.go("create listener", c, Excuse::Never, false, None, async move {
                    let r = h.create_bus_listener().await;
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(l) => {
                            no_ok(dead)?;
                            let idx = s.liss.len();
                            s.liss.push(LisR {
                                filters: Vec::new(),
                                scope: None,
                                start: 0,
                                start_hi: None,
                                got: Vec::new(),
                                wild: false,
                                ended: false,
                            });
                            s.add(c, Res::Lst(l), idx);
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            Filter => {
                let Some((i, c, idx)) = self.slot(src, &[K::Lst]) else { return Ok(()) };
                for _ in 0..src.range(1, 2) {
                    let f = bus_filter(src);
                    let how = src.us(10);
                    let mut s = st.borrow_mut();
                    let s = &mut *s;
                    let Some(Res::Lst(l)) = &mut s.slots[i].res else { return Ok(()) };
                    let r = match how {
                        0 => l.remove_filter(f),
                        1 => l.clear_filters(),
                        _ => l.add_filter(f),
                    };
                    s.note(|| format!("listener {idx}: filter {how} {f:?}: {r:?}"));
                    let Some(Res::Lst(l)) = &s.slots[i].res else { return Ok(()) };
                    match r {
                        Ok(()) => {
                            let x = &mut s.liss[idx];
                            x.wild |= x.scope.is_some();
                            match how {
                                0 => x.filters.retain(|y| *y != f),
                                1 => x.filters.clear(),
                                _ => {
                                    if !x.filters.contains(&f) {
                                        x.filters.push(f)
                                    }
                                }
                            }
                            let a: BTreeSet<_> = l.filters().collect();
                            let b: BTreeSet<_> = x.filters.iter().copied().collect();
                            // A filter whose change failed may have been changed all the same.
                            if (a != b || l.num_filters() != b.len() || l.has_filter(f) != b.contains(&f)) && !s.stopping(c) {
                                return bad("filters", format!("{a:?} instead of {b:?}"));
                            }
                        }
                        Err(e) => down(s, c, e)?,
                    }
                }
            }
            StartLis => {
                let Some((i, c, idx)) = self.slot(src, &[K::Lst]) else { return Ok(()) };
                let scope = *src.pick(&[BusListenerScope::All, BusListenerScope::New, BusListenerScope::Current]);
                let (h0, dead) = (self.h0(), self.dead(c));
                let started = st.borrow().liss[idx].scope.is_some();
                let wild = st.borrow().liss[idx].wild;
                if !started {
                    let mut s = st.borrow_mut();
                    let l = &mut s.liss[idx];
                    l.scope = Some(scope);
                    l.start = h0;
                    l.start_hi = None;
                    l.got.clear();
                    // Becomes exact when the start succeeded.
                    l.wild = true;
                }
                self.go("start listener", c, Excuse::Never, false, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    let r = l.lst().start(scope).await;
                    drop(l);
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(()) if started && !wild => bad("result", "started twice".into()),
                        Ok(()) => {
                            no_ok(dead)?;
                            if !started {
                                s.liss[idx].wild = wild;
                            }
                            s.bump("listeners started");
                            Ok(())
                        }
                        Err(Error::BusListenerAlreadyStarted) if started || wild => Ok(()),
                        Err(Error::InvalidBusListener) if wild => Ok(()),
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            StopLis => {
                let Some((i, c, idx)) = self.slot(src, &[K::Lst]) else { return Ok(()) };
                let dead = self.dead(c);
                let started = st.borrow().liss[idx].scope.is_some();
                let wild = st.borrow().liss[idx].wild;
                st.borrow_mut().liss[idx].wild = true;
                self.go("stop listener", c, Excuse::Never, false, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    let r = l.lst().stop().await;
                    match r {
                        Ok(()) => {
                            if !started && !wild {
                                return bad("result", "stopped a listener that was not started".into());
                            }
                            // Everything that is left, then the end.
                            while l.lst().next_event().await.is_some() {}
                        }
                        Err(Error::BusListenerNotStarted) if !started || wild => return Ok(()),
                        Err(Error::InvalidBusListener) if wild => return Ok(()),
                        Err(e) => return down(&st.borrow(), c, e),
                    }
                    let stopped = l.lst().is_finished();
                    drop(l);
                    no_ok(dead)?;
                    let mut s = st.borrow_mut();
                    if !stopped {
                        return bad("result", "is_finished is false after the end".into());
                    }
                    if !s.stopping(c) {
                        let x = &mut s.liss[idx];
                        x.scope = None;
                        x.got.clear();
                        x.wild = wild;
                    }
                    Ok(())
                });
            }
            NextBus => {
                let Some((i, c, idx)) = self.slot(src, &[K::Lst]) else { return Ok(()) };
                let n = src.range(1, 4);
                let stream = src.bool();
                self.go("next bus event", c, Excuse::Polled, true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    for _ in 0..n {
                        let e = if stream { StreamExt::next(l.lst()).await } else { l.lst().next_event().await };
                        match e {
                            Some(e) => {
                                st.borrow_mut().liss[idx].got.push(e);
                                st.borrow_mut().bump("bus events");
                            }
                            None => break,
                        }
                    }
                    Ok(())
                });
            }
            DestroyLis => {
                let Some((i, c, idx)) = self.slot(src, &[K::Lst]) else { return Ok(()) };
                let dead = self.dead(c);
                let wild = st.borrow().liss[idx].wild;
                st.borrow_mut().liss[idx].wild = true;
                self.go("destroy listener", c, Excuse::Never, false, Some(i), async move {
                    let l = Lease::take(&st, i);
                    let Res::Lst(mut l) = l.consume() else { return Ok(()) };
                    let r = l.destroy().await;
                    let s = st.borrow();
                    match r {
                        Ok(()) => no_ok(dead),
                        Err(Error::InvalidBusListener) if wild => Ok(()),
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            CreateDisc => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let (h, h0, dead) = (self.handle(c), self.h0(), self.dead(c));
                let mut entries = Vec::new();
                let n = if src.chance(1, 20) { 0 } else if src.chance(1, 4) { src.range(4, 7) } else { src.range(1, 3) };
                for k in 0..n {
                    let o = obj_filter(src);
                    entries.push((k as u8, o, subset(src)));
                }
                let current_only = src.chance(1, 3);
                let wait = current_only && src.bool();
                self.go("create discoverer", c, Excuse::Never, false, None, async move {
                    let mut b = h.create_discoverer();
                    for (k, o, s) in &entries {
                        b = b.add(*k, *o, s.iter().copied());
                    }
                    let r = match (current_only, wait) {
                        (true, true) => b.build_current_only_and_wait().await,
                        (true, false) => b.build_current_only().await,
                        _ => b.build().await,
                    };
                    drop(h);
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(d) => {
                            no_ok(dead)?;
                            if wait && !d.is_finished() {
                                return bad("discoverer-finished", "build_current_only_and_wait returns early".into());
                            }
                            let idx = s.discs.len();
                            s.note(|| format!("discoverer {idx}: {entries:?} (current only: {current_only})"));
                            s.discs.push(DiscR {
                                entries,
                                current_only,
                                waited: wait,
                                start: h0,
                                start_hi: None,
                                got: Vec::new(),
                                ended: false,
                            });
                            s.add(c, Res::Disc(d), idx);
                            s.bump("discoverers");
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            RestartDisc => {
                let Some((i, c, idx)) = self.slot(src, &[K::Disc]) else { return Ok(()) };
                let (h0, dead) = (self.h0(), self.dead(c));
                let current_only = src.chance(1, 3);
                let wait = current_only && src.bool();
                self.go("restart discoverer", c, Excuse::Never, false, Some(i), async move {
                    let l = Lease::take(&st, i);
                    let Res::Disc(mut d) = l.consume() else { return Ok(()) };
                    let r = match (current_only, wait) {
                        (true, true) => d.restart_current_only_and_wait().await,
                        (true, false) => d.restart_current_only().await,
                        _ => d.restart().await,
                    };
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(()) => {
                            no_ok(dead)?;
                            if wait && !d.is_finished() {
                                return bad("discoverer-finished", "restart_current_only_and_wait returns early".into());
                            }
                            let x = &mut s.discs[idx];
                            x.start = h0;
                            x.start_hi = None;
                            x.got.clear();
                            x.current_only = current_only;
                            x.waited = wait;
                            x.ended = false;
                            s.add(c, Res::Disc(d), idx);
                            s.bump("discoverers restarted");
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            NextDisc => {
                let Some((i, c, idx)) = self.slot(src, &[K::Disc]) else { return Ok(()) };
                let n = src.range(1, 4);
                let stream = src.bool();
                self.go("next discoverer event", c, Excuse::Polled, true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    for _ in 0..n {
                        let e = if stream { StreamExt::next(l.disc()).await } else { l.disc().next_event().await };
                        match e {
                            Some(e) => {
                                let id = e.object_id();
                                let mut s = st.borrow_mut();
                                if e.is_created() {
                                    // What is reported can be looked up right away.
                                    let want = s.discs[idx].entries.iter().find(|x| x.0 == e.key()).unwrap().2.clone();
                                    let d = l.disc();
                                    if d.object_id(e.key(), id.uuid) != Some(id) {
                                        return bad("service-ids", format!("{id:?} is reported and cannot be looked up"));
                                    }
                                    let ids = e.service_ids(d, want.iter().copied());
                                    let arr: Vec<ServiceId> = match want[..] {
                                        [] => e.service_ids_n(d, &[]).to_vec(),
                                        [a] => e.service_ids_n(d, &[a]).to_vec(),
                                        [a, b] => e.service_ids_n(d, &[b, a]).into_iter().rev().collect(),
                                        _ => ids.clone(),
                                    };
                                    let ok = ids == arr && ids.len() == want.len()
                                        && ids.iter().zip(&want).all(|(x, y)| {
                                            x.uuid == *y && x.object_id == id && e.service_id(d, *y) == *x
                                        });
                                    if !ok {
                                        return bad("service-ids", format!("{ids:?} for {want:?} on {id:?}"));
                                    }
                                }
                                s.discs[idx].got.push((e.key(), e.is_created(), id));
                                s.bump("discoverer events");
                            }
                            None => break,
                        }
                    }
                    Ok(())
                });
            }
            Find | WaitFor => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let (h, h0, dead) = (self.handle(c), self.h0(), self.dead(c));
                let o = obj_filter(src);
                let want = subset(src);
                let w2 = want.clone();
                let array = want.len() == 1 && src.bool();
                let alias = src.bool();
                let wait = op == WaitFor;
                let i = self.go(if wait { "wait for object" } else { "find object" }, c, if wait { Excuse::Wait } else { Excuse::Never }, false, None, async move {
                    let v = |x: Option<(ObjectId, [ServiceId; 1])>| x.map(|(a, b)| (a, b.to_vec()));
                    let w = || want.iter().copied();
                    let bare = |x: Option<ObjectId>| x.map(|x| (x, Vec::new()));
                    let r: Result<Option<(ObjectId, Vec<ServiceId>)>, Error> = match (wait, array, alias, o) {
                        (true, true, true, Some(o)) => h.wait_for_object_with_services_n(o, &[want[0]]).await.map(|x| v(Some(x))),
                        (true, true, true, None) => h.wait_for_any_object_with_services_n(&[want[0]]).await.map(|x| v(Some(x))),
                        (true, true, _, _) => h.wait_for_object_n(o, &[want[0]]).await.map(|x| v(Some(x))),
                        (true, _, true, Some(o)) if want.is_empty() => h.wait_for_bare_object(o).await.map(|x| bare(Some(x))),
                        (true, _, true, Some(o)) => h.wait_for_object_with_services(o, w()).await.map(Some),
                        (true, _, true, None) => h.wait_for_any_object_with_services(w()).await.map(Some),
                        (true, _, _, _) => h.wait_for_object(o, w()).await.map(Some),
                        (_, true, true, Some(o)) => h.find_object_with_services_n(o, &[want[0]]).await.map(v),
                        (_, true, true, None) => h.find_any_object_with_services_n(&[want[0]]).await.map(v),
                        (_, true, _, _) => h.find_object_n(o, &[want[0]]).await.map(v),
                        (_, _, true, Some(o)) if want.is_empty() => h.find_bare_object(o).await.map(bare),
                        (_, _, true, Some(o)) => h.find_object_with_services(o, w()).await,
                        (_, _, true, None) => h.find_any_object_with_services(w()).await,
                        _ => h.find_object(o, w()).await,
                    };
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(Some((id, ids))) => {
                            no_ok(dead)?;
                            s.bump("objects found");
                            s.later(h0, format!("found {id:?} {ids:?} for {o:?} {want:?}"), move |h, lo, hi| {
                                any_state(h, lo, hi, |b| {
                                    b.matching(o, &want).get(&id.uuid) == Some(&(id, ids.clone()))
                                })
                                .then_some(())
                                .ok_or("that never existed during the search".into())
                            });
                            Ok(())
                        }
                        Ok(None) => {
                            s.bump("objects not found");
                            if s.stopping(c) {
                                return Ok(());
                            }
                            s.later(h0, format!("found nothing for {o:?} {want:?}"), move |h, lo, hi| {
                                any_state(h, lo, hi, |b| b.matching(o, &want).is_empty())
                                    .then_some(())
                                    .ok_or("a match existed all along".into())
                            });
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
                self.st.borrow_mut().ops[i].wait = Some((o, w2));
            }
            CreateLifetime => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let n = st.borrow().objs.len();
                if n == 0 {
                    return Ok(());
                }
                let o = if src.bool() { src.us(n) } else { n - 1 - src.us(n.min(3)) };
                let (id, life) = {
                    let s = st.borrow();
                    (s.objs[o].id, s.objs[o].life)
                };
                // Scopes that never existed.
                let (id, life) = match src.us(8) {
                    1 => {
                        let t = self.token() as u128;
                        let id = ObjectId::new(id.uuid, ObjectCookie(uuid::Uuid::from_u128(t)));
                        (id, LifetimeId::from(id))
                    }
                    2 => {
                        let t = self.token() as u128;
                        let id = ObjectId::new(ObjectUuid(uuid::Uuid::from_u128(t)), id.cookie);
                        (id, LifetimeId(id))
                    }
                    _ => (id, life),
                };
                let (h, h0, dead) = (self.handle(c), self.h0(), self.dead(c));
                let alias = src.us(3);
                self.go("create lifetime", c, Excuse::Never, false, None, async move {
                    let r = match alias {
                        0 => Lifetime::new(&h, life).await,
                        1 => life.bind(&h).await,
                        _ => h.create_lifetime(life).await,
                    };
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(l) => {
                            no_ok(dead)?;
                            let idx = s.lives.len();
                            s.lives.push(LifeR { client: c, id, start: h0, ended: false });
                            s.add(c, Res::Life(l), idx);
                            s.bump("lifetimes");
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            Ended => {
                let Some((i, c, idx)) = self.slot(src, &[K::Life]) else { return Ok(()) };
                let stream = src.bool();
                self.go("lifetime ended", c, Excuse::Polled, true, Some(i), async move {
                    let mut l = Lease::take(&st, i);
                    if stream { l.life().await } else { l.life().ended().await }
                    let flag = l.life().has_ended() && l.life().is_terminated();
                    drop(l);
                    let mut s = st.borrow_mut();
                    s.bump("lifetimes ended");
                    if !flag {
                        return bad("lifetime-flag", "has_ended is false after ended".into());
                    }
                    if s.stopping(c) {
                        return Ok(());
                    }
                    let id = s.lives[idx].id;
                    s.later(0, format!("lifetime of {id:?} ended"), move |h, _, hi| {
                        any_state(h, hi, hi, |b| !b.has_obj(id)).then_some(()).ok_or("it exists".into())
                    });
                    Ok(())
                });
            }
            SyncClient | SyncBroker | Version => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let (h, dead) = (self.handle(c), self.dead(c));
                let name = match op {
                    SyncClient => "sync client",
                    SyncBroker => "sync broker",
                    _ => "version",
                };
                self.go(name, c, Excuse::Never, false, None, async move {
                    let r = match op {
                        SyncClient => h.sync_client().await.map(|_| ()),
                        SyncBroker => h.sync_broker().await.map(|_| ()),
                        _ => match h.version().await {
                            Ok(v) => {
                                let m = st.borrow().cls[c].minor;
                                if v.major() != 1 || v.minor() != m {
                                    return bad("version", format!("{v:?} instead of 1.{m}"));
                                }
                                Ok(())
                            }
                            Err(e) => Err(e),
                        },
                    };
                    match r {
                        Ok(()) => no_ok(dead),
                        Err(e) => down(&st.borrow(), c, e),
                    }
                });
            }
            RegisterIntro => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let h = self.handle(c);
                let mut s = st.borrow_mut();
                for t in intro_types() {
                    if let Err(e) = h.register_introspection_dyn(t) {
                        return down(&s, c, e);
                    }
                }
                if let Err(e) = h.submit_introspection() {
                    return down(&s, c, e);
                }
                let e = s.epoch;
                s.note(|| format!("client {c} registers introspection"));
                s.cls[c].intro.get_or_insert(e);
            }
            QueryIntro => {
                let Some(c) = self.client(src) else { return Ok(()) };
                thread_local!(static ALL: Vec<DynIntrospectable> = intro_closure());
                let t = ALL.with(|a| a[src.us(a.len())]);
                let id = TypeId::compute_from_dyn(t);
                let (h, dead) = (self.handle(c), self.dead(c));
                let firm = {
                    let s = st.borrow();
                    let own = s.cls[c].minor >= 17;
                    (0..s.cls.len()).find(|x| {
                        (*x == c || own && s.cls[*x].minor >= 17)
                            && s.cls[*x].intro.is_some_and(|e| *x == c || e < s.epoch)
                            && !s.stopping(*x)
                    })
                };
                self.go("query introspection", c, Excuse::Never, false, None, async move {
                    let r = h.query_introspection(id).await;
                    let mut s = st.borrow_mut();
                    match r {
                        Ok(Some(i)) => {
                            no_ok(dead)?;
                            s.bump("introspections");
                            if s.cls.iter().all(|x| x.intro.is_none()) {
                                return bad("introspection", "nobody registered the type".into());
                            }
                            if i != Introspection::from_dyn(t) {
                                return bad("introspection", format!("got {i:?}"));
                            }
                            Ok(())
                        }
                        Ok(None) => {
                            no_ok(dead)?;
                            if let Some(x) = firm.filter(|x| !s.stopping(*x) && !s.stopping(c)) {
                                return bad("introspection", format!("client {x} registered the type"));
                            }
                            Ok(())
                        }
                        Err(e) => down(&s, c, e),
                    }
                });
            }
            Shutdown => {
                let Some(c) = self.client(src) else { return Ok(()) };
                self.shutdown(c);
            }
            LastHandle => {
                let Some(c) = self.client(src) else { return Ok(()) };
                self.last_handle(c);
            }
            Fault => {
                let Some(c) = self.client(src) else { return Ok(()) };
                let f = *src.pick(&FAULTS);
                let mut s = st.borrow_mut();
                if s.stopped(c) {
                    return Ok(());
                }
                s.note(|| format!("client {c}: transport fault {f:?}"));
                s.cls[c].tap.borrow_mut().fire(f);
            }
            BrokerShutdown => self.broker_shutdown(),
        }
        self.failed()
    }

    pub fn shutdown(&mut self, c: usize) {
        let mut s = self.st.borrow_mut();
        if let Some(h) = &s.cls[c].handle {
            h.shutdown();
            s.cls[c].stopping = true;
            s.note(|| format!("client {c}: shutdown"));
        }
    }

    /// Lets go of everything that belongs to a client.
    pub fn last_handle(&mut self, c: usize) {
        let ops: Vec<usize> = {
            let mut s = self.st.borrow_mut();
            s.note(|| format!("client {c}: last handle dropped"));
            s.cls[c].stopping = true;
            (0..s.ops.len()).filter(|o| s.ops[*o].client == c && !s.ops[*o].done).collect()
        };
        for o in ops {
            self.cancel_op(o);
        }
        let slots: Vec<usize> = {
            let s = self.st.borrow();
            (0..s.slots.len()).filter(|i| s.slots[*i].client == c && !s.slots[*i].gone).collect()
        };
        for i in slots {
            self.drop_res(i);
        }
        let h = self.st.borrow_mut().cls[c].handle.take();
        drop(h);
    }

    pub fn broker_shutdown(&mut self) {
        let mut s = self.st.borrow_mut();
        if s.broker_down {
            return;
        }
        s.broker_down = true;
        s.note(|| "broker shutdown".into());
        drop(s);
        let mut h = self.bh.clone();
        self.exec.spawn(async move { h.shutdown().await });
    }

    /// Runs a generated program.
    pub fn program(&mut self, src: &mut Src, p: &Profile) -> R {
        self.settle(src)?;
        for op in p.setup {
            self.apply(src, *op)?;
            self.settle(src)?;
        }
        let n = src.range(p.len.0, p.len.1);
        // How far things get between two operations.
        let pace = src.us(4);
        // What this program is mostly about, and how much it is disturbed.
        let picks: Vec<usize> = match src.us(4) {
            0 => vec![],
            k => (0..k).map(|_| src.us(THEMES.len())).collect(),
        };
        let themes: Vec<&[Op]> = picks.iter().map(|k| THEMES[*k]).collect();
        for k in picks {
            if src.chance(3, 4) {
                for op in KICKOFF[k] {
                    if !p.ops.iter().any(|x| x.0 == *op) {
                        continue;
                    }
                    self.apply(src, *op)?;
                    self.settle(src)?;
                }
            }
        }
        let mood = src.us(4);
        let weights: Vec<u64> = p
            .ops
            .iter()
            .map(|&(op, w)| {
                if DISTURB.contains(&op) {
                    w * [0, 1, 4, 12][mood]
                } else if themes.iter().any(|t| t.contains(&op)) {
                    w * 24
                } else if themes.is_empty() {
                    w * 12
                } else {
                    w * 2
                }
            })
            .collect();
        for _ in 0..n {
            let ws: Vec<u64> =
                p.ops.iter().zip(&weights).map(|(x, w)| if self.applicable(x.0) { *w } else { 0 }).collect();
            let op = p.ops[src.weighted(&ws)].0;
            self.apply(src, op)?;
            match src.weighted(&[[5, 3, 1, 0], [3, 4, 3, 1], [2, 2, 5, 2], [1, 2, 4, 6]][pace]) {
                0 => {}
                1 => {
                    let k = src.range(1, 6);
                    self.steps(src, k)?;
                }
                2 => {
                    let k = src.range(4, 40);
                    self.steps(src, k)?;
                }
                _ => self.settle(src)?,
            }
        }
        Ok(())
    }

    /// There is something the operation can be applied to.
    fn applicable(&self, op: Op) -> bool {
        let s = self.st.borrow();
        let kinds: &[K] = match op {
            Cancel => return s.ops.iter().any(|o| !o.done && o.name != "keep"),
            DropRes => return s.slots.iter().any(|x| !x.gone),
            DestroyObject | CreateService | CreateServices => &[K::Obj],
            EndScope => &[K::Scope],
            CreateProxy => return !s.svcs.is_empty(),
            Bind => return s.chans.iter().any(|c| c.ends.iter().any(|e| e.published)),
            DestroyService | NextCall | Emit => &[K::Svc],
            Call | Subscribe | Unsubscribe | UnsubscribeAll | NextEvent => &[K::Proxy],
            WaitReply => &[K::Reply],
            Answer | Aborted => &[K::Call],
            Unbind | Claim => &[K::USnd, K::URcv],
            Establish | WaitEstablished => &[K::PSnd, K::PRcv],
            CloseEnd => &[K::USnd, K::URcv, K::PSnd, K::PRcv, K::Snd, K::Rcv],
            Send | ReceiverClosed => &[K::Snd],
            Recv => &[K::Rcv],
            Filter | StartLis | StopLis | NextBus | DestroyLis => &[K::Lst],
            RestartDisc | NextDisc => &[K::Disc],
            Ended => &[K::Life],
            _ => return true,
        };
        s.slots.iter().any(|x| !x.gone && kinds.contains(&x.kind) && x.busy.is_none_or(|o| s.ops[o].steal))
    }

    /// Ends everything in an orderly way; everything must resolve.
    pub fn finish(&mut self, src: &mut Src) -> R {
        self.settle(src)?;
        // What runs on stopped clients and what is started there has to end.
        self.probe_stopped(src)?;
        self.settle(src)?;
        // Let go of everything; some of it while operations run.
        let mut slots: Vec<usize> = {
            let s = self.st.borrow();
            (0..s.slots.len()).filter(|i| !s.slots[*i].gone).collect()
        };
        while !slots.is_empty() {
            let i = slots.swap_remove(src.us(slots.len()));
            let (busy, gone, steal) = {
                let s = self.st.borrow();
                let b = s.slots[i].busy;
                (b, s.slots[i].gone, b.is_some_and(|o| s.ops[o].steal))
            };
            if gone {
                continue;
            }
            if let Some(o) = busy {
                if !steal {
                    continue;
                }
                self.cancel_op(o);
            }
            self.drop_res(i);
            if src.chance(1, 3) {
                let n = src.range(1, 4);
                self.steps(src, n)?;
            }
        }
        self.settle(src)?;
        // Operations that go on may have produced something meanwhile.
        for _ in 0..4 {
            let v: Vec<usize> = {
                let s = self.st.borrow();
                (0..s.slots.len()).filter(|i| !s.slots[*i].gone && s.slots[*i].res.is_some()).collect()
            };
            if v.is_empty() {
                break;
            }
            for i in v {
                self.drop_res(i);
            }
            self.settle(src)?;
        }
        // Ends nobody holds any more.
        let v: Vec<(usize, usize)> = {
            let s = self.st.borrow();
            (0..s.chans.len())
                .flat_map(|c| [(c, 0), (c, 1)])
                .filter(|(c, e)| s.chans[*c].ends[*e].published || s.chans[*c].ends[*e].claimed.is_none())
                .collect()
        };
        // Dropping them may be what makes a planned fault happen, so everybody tries.
        let n = self.st.borrow().cls.len();
        let mut live = None;
        for c in 0..n {
            let ok = |s: &St| s.cls[c].handle.is_some() && !s.stopping(c);
            if !ok(&self.st.borrow()) {
                continue;
            }
            for (ch, end) in &v {
                let h = self.handle(c);
                let cookie = self.st.borrow().chans[*ch].cookie;
                self.st.borrow_mut().unclaimed_dropped(*ch, *end, c);
                if *end == 0 {
                    drop(UnboundSender::new(cookie).bind(h));
                } else {
                    drop(UnboundReceiver::new(cookie).bind(h));
                }
            }
            self.settle(src)?;
            if ok(&self.st.borrow()) {
                live = Some(c);
                break;
            }
        }
        self.settle(src)?;
        let left: Vec<(usize, &'static str)> = {
            let s = self.st.borrow();
            (0..s.ops.len()).filter(|o| !s.ops[*o].done).map(|o| (o, s.ops[o].name)).collect()
        };
        for (o, name) in left {
            let alone = live.is_none() && !self.st.borrow().stopped(self.st.borrow().ops[o].client);
            if name == "wait for object" || alone {
                self.cancel_op(o);
            } else {
                let down = self.st.borrow().broker_down;
                if !down {
                    return bad("hang", format!("operation #{o} {name} is pending though its peer is gone"));
                }
            }
        }
        self.settle(src)?;
        self.statistics(src, live.is_some())?;
        // Everybody leaves.
        let idle_first = src.bool();
        if idle_first {
            self.idle();
        }
        let n = self.st.borrow().cls.len();
        for c in 0..n {
            if self.st.borrow().cls[c].handle.is_some() {
                if src.bool() {
                    self.shutdown(c);
                } else {
                    self.last_handle(c);
                }
            }
            if src.bool() {
                let n = src.range(0, 6);
                self.steps(src, n)?;
            }
        }
        self.settle(src)?;
        for c in 0..n {
            let s = self.st.borrow();
            let cl = &s.cls[c];
            let t = cl.tap.borrow();
            if cl.run.is_none() {
                return bad("client-hangs", format!("client {c} does not stop (fault {:?})", t.fired));
            }
            if matches!(cl.run, Some(Ok(()))) && t.reported && !cl.stopping && !s.broker_down {
                return bad("run-ok", format!("client {c} reports success after a transport fault {:?}", t.fired));
            }
        }
        let down = self.st.borrow().broker_down;
        if !down {
            self.obs.borrow_mut().push_frame(crate::world::frame(2, vec![]));
        }
        if !idle_first {
            self.idle();
        }
        self.settle(src)?;
        if !self.st.borrow().broker_done {
            return bad("broker-hangs", "all clients have left and the broker does not stop".into());
        }
        Ok(())
    }

    fn idle(&mut self) {
        let mut h = self.bh.clone();
        self.exec.spawn(async move { h.shutdown_idle().await });
    }

    fn statistics(&mut self, src: &mut Src, exact: bool) -> R {
        if self.st.borrow().broker_down {
            return Ok(());
        }
        let out = std::rc::Rc::new(std::cell::RefCell::new(None));
        let o = out.clone();
        let mut h = self.bh.clone();
        self.exec.spawn(async move {
            *o.borrow_mut() = h.take_statistics().await.ok();
        });
        self.settle(src)?;
        let out = out.borrow();
        let Some(s) = out.as_ref() else {
            return bad("statistics", "no statistics".into());
        };
        let st = self.st.borrow();
        let live = st.cls.iter().filter(|c| c.conn.is_none()).count() + 1;
        let got = (s.num_connections(), s.num_objects(), s.num_services(), s.num_bus_listeners());
        if got != (live, 0, 0, 1) {
            let m = format!("connections, objects, services, listeners: {got:?}, expected {:?}", (live, 0, 0, 1));
            return bad("left-over", m);
        }
        if exact && s.num_channels() != 0 {
            return bad("left-over", format!("{} channels are left", s.num_channels()));
        }
        Ok(())
    }

    /// Starts one operation of every kind on everything that belongs to a stopped client.
    fn probe_stopped(&mut self, src: &mut Src) -> R {
        let slots: Vec<usize> = {
            let s = self.st.borrow();
            (0..s.slots.len()).filter(|i| !s.slots[*i].gone && s.stopped(s.slots[*i].client)).collect()
        };
        for i in slots {
            let (kind, busy) = {
                let s = self.st.borrow();
                (s.slots[i].kind, s.slots[i].busy)
            };
            if busy.is_some() {
                continue;
            }
            let ops: &[Op] = match kind {
                K::Obj => &[CreateService, CreateServices, DestroyObject],
                K::Scope => &[EndScope],
                K::Svc => &[NextCall, Emit, DestroyService],
                K::Proxy => &[Call, Subscribe, Unsubscribe, UnsubscribeAll, NextEvent],
                K::Reply => &[WaitReply],
                K::Call => &[Aborted, Answer],
                K::USnd | K::URcv => &[CloseEnd, Claim],
                K::PSnd | K::PRcv => &[WaitEstablished, CloseEnd, Establish],
                K::Snd => &[Send, ReceiverClosed, CloseEnd],
                K::Rcv => &[Recv, CloseEnd],
                K::Lst => &[NextBus, Filter, StartLis, StopLis, DestroyLis],
                K::Disc => &[NextDisc, RestartDisc],
                K::Life => &[Ended],
            };
            let op = ops[src.us(ops.len())];
            self.only = Some(i);
            let r = self.apply(src, op);
            self.only = None;
            r?;
            self.st.borrow_mut().bump("operations on stopped clients");
        }
        let stopped: Vec<usize> = {
            let s = self.st.borrow();
            (0..s.cls.len()).filter(|c| s.stopped(*c) && s.cls[*c].handle.is_some()).collect()
        };
        for c in stopped {
            let ops = [
                CreateObject,
                CreateScope,
                CreateProxy,
                CreateChan,
                CreateLis,
                CreateDisc,
                Find,
                WaitFor,
                CreateLifetime,
                SyncClient,
                SyncBroker,
                Version,
                RegisterIntro,
                QueryIntro,
            ];
            for _ in 0..3 {
                let op = ops[src.us(ops.len())];
                self.only_client = Some(c);
                let r = self.apply(src, op);
                self.only_client = None;
                r?;
                self.st.borrow_mut().bump("operations on stopped clients");
            }
        }
        self.settle(src)
    }
}

pub fn life_object(l: LifetimeId) -> ObjectId {
    let b = aldrin_core::SerializedValue::serialize(l).expect("lifetime id");
    b.deserialize::<ObjectId>().expect("object id")
}

#[allow(dead_code)]
fn poll_once<T>(f: impl FnOnce(&mut Context) -> Poll<T>) -> Poll<T> {
    f(&mut Context::from_waker(Waker::noop()))
}
