//! C06, C15, C19: programs over the client API.
use crate::cli::{Cause, Conf, R, W};
use crate::cliops::{Op, Profile};
use crate::tap::{Fault, Wire};
use vp::{Ctx, Fail, Kind, Part, Property, Res, Src};
use Op::*;

const C06: Profile = Profile {
    len: (15, 120),
    ops: &[
        (Steps, 8),
        (Settle, 3),
        (Policy, 2),
        (Cancel, 3),
        (DropRes, 3),
        (CreateObject, 6),
        (DestroyObject, 2),
        (CreateService, 7),
        (CreateServices, 2),
        (DestroyService, 2),
        (CreateProxy, 8),
        (Call, 10),
        (WaitReply, 9),
        (NextCall, 10),
        (Answer, 8),
        (Aborted, 2),
        (Emit, 7),
        (Subscribe, 8),
        (Unsubscribe, 3),
        (UnsubscribeAll, 2),
        (NextEvent, 6),
        (CreateChan, 8),
        (Unbind, 5),
        (Bind, 6),
        (Claim, 10),
        (Establish, 6),
        (WaitEstablished, 1),
        (CloseEnd, 2),
        (Send, 10),
        (Recv, 10),
        (ReceiverClosed, 2),
        (CreateLis, 3),
        (Filter, 4),
        (StartLis, 4),
        (StopLis, 2),
        (NextBus, 3),
        (DestroyLis, 1),
        (CreateDisc, 2),
        (RestartDisc, 1),
        (NextDisc, 2),
        (Find, 1),
        (WaitFor, 1),
        (CreateScope, 1),
        (EndScope, 1),
        (CreateLifetime, 2),
        (Ended, 2),
        (SyncClient, 1),
        (SyncBroker, 1),
        (Version, 1),
        (RegisterIntro, 1),
        (QueryIntro, 2),
        (Shutdown, 1),
        (LastHandle, 1),
    ],
    setup: &[],
};

pub fn minor(src: &mut Src) -> u32 {
    *src.pick(&[20u32, 20, 14, 19, 18, 17, 16, 15, 20, 20, 19, 18])
}

const NETS: [Wire; 8] = [
    Wire::Unbounded,
    Wire::Bounded(1),
    Wire::Bounded(0),
    Wire::Bounded(2),
    Wire::Bounded(4),
    Wire::Bounded(16),
    Wire::Stream(40),
    Wire::Stream(1 << 14),
];

pub fn confs(src: &mut Src) -> Vec<Conf> {
    let n = src.range(1, 3);
    (0..n)
        .map(|_| Conf { minor: minor(src), net: *src.pick(&NETS), plan: None, cause: None })
        .collect()
}

fn done(w: &mut W, ctx: &mut Ctx, r: R, labels: &[&'static str]) -> Res {
    let s = w.st.borrow();
    for (k, v) in &s.counts {
        ctx.count_n(k, *v);
    }
    ctx.nontrivial = labels.iter().filter(|l| s.counts.get(*l).copied().unwrap_or(0) > 0).count() >= 1;
    if let Some(l) = &s.log {
        for x in l {
            ctx.describe(|| x.clone());
        }
    }
    drop(s);
    r.map_err(|f| Fail::new(f.sig, f.msg))
}

fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cs = confs(src);
    let mut w = W::new(src, ctx.want_desc, cs)?;
    let r = w.program(src, &C06).and_then(|()| w.finish(src));
    done(&mut w, ctx, r, &["replies", "events delivered", "items received"])
}

/// Multi-operation scenarios; what ends the clients is enumerated.
const C15: Profile = Profile {
    len: (4, 36),
    ops: &[
        (Steps, 6),
        (Settle, 2),
        (Policy, 1),
        (Cancel, 2),
        (DropRes, 2),
        (CreateObject, 6),
        (DestroyObject, 2),
        (CreateService, 7),
        (CreateServices, 1),
        (DestroyService, 2),
        (CreateProxy, 8),
        (Call, 10),
        (WaitReply, 9),
        (NextCall, 10),
        (Answer, 8),
        (Aborted, 4),
        (Emit, 5),
        (Subscribe, 8),
        (Unsubscribe, 2),
        (UnsubscribeAll, 1),
        (NextEvent, 8),
        (CreateChan, 8),
        (Unbind, 4),
        (Bind, 5),
        (Claim, 8),
        (Establish, 8),
        (WaitEstablished, 4),
        (CloseEnd, 2),
        (Send, 10),
        (Recv, 10),
        (ReceiverClosed, 4),
        (CreateLis, 3),
        (Filter, 3),
        (StartLis, 4),
        (StopLis, 2),
        (NextBus, 4),
        (DestroyLis, 1),
        (CreateDisc, 3),
        (RestartDisc, 1),
        (NextDisc, 3),
        (Find, 1),
        (WaitFor, 3),
        (CreateScope, 1),
        (EndScope, 1),
        (CreateLifetime, 2),
        (Ended, 3),
        (SyncClient, 2),
        (SyncBroker, 2),
        (Version, 1),
        (RegisterIntro, 1),
        (QueryIntro, 2),
        (Shutdown, 1),
        (LastHandle, 1),
    ],
    setup: &[],
};

#[derive(Clone, Copy, Debug)]
enum End {
    Fault(Fault),
    Clean(Cause),
}

const ENDS: [End; 8] = [
    End::Fault(Fault::All),
    End::Fault(Fault::Eof),
    End::Fault(Fault::Recv),
    End::Fault(Fault::Send),
    End::Fault(Fault::Flush),
    End::Clean(Cause::Shutdown),
    End::Clean(Cause::LastHandle),
    End::Clean(Cause::Broker),
];

/// One run of a scenario. The result, what is counted, the log and the number of transport
/// operations of the victim.
#[allow(clippy::type_complexity)]
fn scenario(
    src: &mut Src,
    log: bool,
    seed: u64,
    confs: &[Conf],
    victim: usize,
    end: Option<(u64, End)>,
) -> (R, std::collections::BTreeMap<&'static str, u64>, Vec<String>, u64) {
    vp::detrand::seed(seed);
    vp::trace_clear();
    let mut cs = confs.to_vec();
    match end {
        Some((k, End::Fault(f))) => cs[victim].plan = Some((k, f)),
        Some((k, End::Clean(c))) => cs[victim].cause = Some((k, c)),
        None => {}
    }
    vp::trace(&format!("client {victim} ends: {end:?}"));
    let mut w = match W::new(src, log, cs) {
        Ok(w) => w,
        Err(e) => return (Err(e), Default::default(), Vec::new(), 0),
    };
    let r = w.program(src, &C15).and_then(|()| w.finish(src));
    let mut s = w.st.borrow_mut();
    let ops = s.cls[victim].tap.borrow().ops;
    let counts = std::mem::take(&mut s.counts);
    let log = s.log.take().unwrap_or_default();
    drop(s);
    (r, counts, log, ops)
}

fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let confs = confs(src);
    let victim = src.us(confs.len());
    let seed = src.below(1 << 32);
    let from = src.recorded().len();
    let (r, counts, log, ops) = scenario(src, ctx.want_desc, seed, &confs, victim, None);
    if let Err(f) = r {
        for l in log {
            ctx.describe(|| l);
        }
        return Err(f);
    }
    let choices = src.recorded()[from..].to_vec();
    ctx.count_n("transport operations", ops);
    ctx.nontrivial = counts.get("operations").copied().unwrap_or(0) >= 6 && ops >= 20;
    // Points beyond the last operation are hit by nothing.
    for k in 1..=ops {
        for end in ENDS {
            let at = Some((k, end));
            let mut sub = Src::seeded(choices.clone(), vp::mix(seed ^ k));
            let (r, counts, log, _) = scenario(&mut sub, ctx.want_desc, seed, &confs, victim, at);
            ctx.count("terminations");
            ctx.count_n("operations on stopped clients", counts.get("operations on stopped clients").copied().unwrap_or(0));
            ctx.count_n("operations cut off", counts.get("cut off").copied().unwrap_or(0));
            if let Err(f) = r {
                ctx.describe(|| format!("client {victim} ends with {end:?} at its transport operation {k}"));
                for l in log {
                    ctx.describe(|| l);
                }
                return Err(f);
            }
        }
    }
    Ok(())
}

const C19: Profile = Profile {
    len: (15, 100),
    ops: &[
        (Steps, 8),
        (Settle, 2),
        (Policy, 2),
        (Cancel, 2),
        (DropRes, 4),
        (CreateObject, 14),
        (DestroyObject, 8),
        (CreateService, 10),
        (CreateServices, 8),
        (DestroyService, 8),
        (CreateLis, 2),
        (Filter, 2),
        (StartLis, 2),
        (StopLis, 1),
        (NextBus, 2),
        (CreateDisc, 7),
        (RestartDisc, 4),
        (NextDisc, 10),
        (Find, 5),
        (WaitFor, 5),
        (CreateScope, 3),
        (EndScope, 2),
        (CreateLifetime, 7),
        (Ended, 5),
        (SyncClient, 1),
        (Shutdown, 1),
    ],
    setup: &[],
};

fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cs = confs(src);
    let mut w = W::new(src, ctx.want_desc, cs)?;
    let r = w.program(src, &C19).and_then(|()| w.finish(src));
    let gone = w.st.borrow().objs.iter().any(|o| o.destroy > 0) || w.st.borrow().svcs.iter().any(|o| o.destroy > 0);
    let r = done(&mut w, ctx, r, &["discoverer events", "objects found", "lifetimes ended"]);
    ctx.nontrivial &= gone;
    r
}

/// Watchers that are there from the start while objects come and go.
const WATCHERS: Profile = Profile {
    len: (25, 140),
    ops: &[
        (Steps, 10),
        (Settle, 1),
        (Policy, 2),
        (CreateObject, 12),
        (DestroyObject, 10),
        (CreateService, 8),
        (CreateServices, 10),
        (DestroyService, 9),
        (CreateDisc, 2),
        (RestartDisc, 3),
        (NextDisc, 10),
        (Find, 2),
        (WaitFor, 3),
        (CreateScope, 2),
        (EndScope, 2),
        (CreateLifetime, 4),
        (Ended, 4),
    ],
    setup: &[CreateObject, CreateServices, CreateDisc, CreateDisc, CreateScope, CreateLifetime, NextDisc, Ended],
};

fn watchers(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cs = confs(src);
    let mut w = W::new(src, ctx.want_desc, cs)?;
    let r = w.program(src, &WATCHERS).and_then(|()| w.finish(src));
    let gone = w.st.borrow().objs.iter().any(|o| o.destroy > 0) || w.st.borrow().svcs.iter().any(|o| o.destroy > 0);
    let r = done(&mut w, ctx, r, &["discoverer events", "objects found", "lifetimes ended"]);
    ctx.nontrivial &= gone;
    r
}

/// C12: what real clients and the broker exchange conforms to the negotiated version.
pub fn c12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cs = confs(src);
    let mixed = cs.iter().any(|c| c.minor != cs[0].minor);
    let mut w = W::new(src, ctx.want_desc, cs)?;
    let r = w.program(src, &C06).and_then(|()| w.finish(src));
    let mut v2 = 0;
    let mut bad = None;
    for (i, c) in w.st.borrow().cls.iter().enumerate() {
        let t = c.tap.borrow();
        v2 += t.v2;
        ctx.count_n("messages received", t.heard);
        if let Some(b) = &t.bad {
            bad.get_or_insert(Fail::new("version-gate", format!("client {i} (1.{}): {b}", c.minor)));
        }
    }
    ctx.count_n("values with V2 containers", v2);
    let r = done(&mut w, ctx, r, &["replies", "events delivered", "items received"]);
    ctx.nontrivial &= mixed;
    // Whatever else may be wrong is the business of C06.
    if r.is_err() {
        ctx.count("given up");
    }
    match bad {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

/// What a check of one property looks at when real clients take part.
struct Focus {
    ops: Profile,
    /// Operations whose failing or hanging is a violation.
    names: &'static [&'static str],
    /// Other failures that are.
    sigs: &'static [&'static str],
    labels: &'static [&'static str],
}

macro_rules! common {
    ($($x:expr,)*) => {
        &[
            (Steps, 8),
            (Settle, 3),
            (Policy, 2),
            (Cancel, 2),
            (DropRes, 3),
            (CreateObject, 6),
            (CreateService, 7),
            $($x,)*
            (SyncClient, 1),
            (SyncBroker, 1),
            (Shutdown, 1),
            (LastHandle, 1),
        ]
    };
}

const CALLS: Focus = Focus {
    ops: Profile {
        len: (15, 90),
        ops: common!(
            (DestroyObject, 2),
            (DestroyService, 2),
            (CreateProxy, 8),
            (Call, 12),
            (WaitReply, 12),
            (NextCall, 12),
            (Answer, 10),
            (Aborted, 3),
        ),
        setup: &[CreateObject, CreateService, CreateProxy, NextCall, Call],
    },
    names: &["wait for reply", "next call", "aborted"],
    sigs: &[
        "run-unexpected-CallFunction",
        "run-unexpected-CallFunction2",
        "run-unexpected-CallFunctionReply",
        "run-unexpected-AbortFunctionCall",
    ],
    labels: &["replies"],
};

const REGISTRY: Focus = Focus {
    ops: Profile {
        len: (15, 90),
        ops: common!(
            (CreateObject, 8),
            (DestroyObject, 8),
            (CreateService, 8),
            (CreateServices, 4),
            (DestroyService, 8),
            (CreateProxy, 8),
            (CreateScope, 1),
            (EndScope, 1),
        ),
        setup: &[],
    },
    names: &["create object", "destroy object", "create service", "create services", "destroy service", "create proxy"],
    sigs: &[
        "result",
        "history",
        "object-state",
        "service-state",
        "object-left",
        "service-left",
        "destroyed-twice",
        "run-unexpected-CreateObjectReply",
        "run-unexpected-DestroyObjectReply",
        "run-unexpected-CreateServiceReply",
        "run-unexpected-DestroyServiceReply",
        "run-unexpected-QueryServiceVersionReply",
        "run-unexpected-QueryServiceInfoReply",
    ],
    labels: &["objects created", "services created"],
};

const EVENTS: Focus = Focus {
    ops: Profile {
        len: (15, 100),
        ops: common!(
            (DestroyObject, 2),
            (DestroyService, 2),
            (CreateProxy, 8),
            (Emit, 10),
            (Subscribe, 10),
            (Unsubscribe, 5),
            (UnsubscribeAll, 3),
            (NextEvent, 10),
        ),
        setup: &[CreateObject, CreateService, CreateProxy, Subscribe, CreateProxy, Subscribe, Emit],
    },
    names: &["subscribe", "subscribe all", "unsubscribe", "unsubscribe all", "next event"],
    sigs: &[
        "subscription-left",
        "run-unexpected-EmitEvent",
        "run-unexpected-SubscribeEvent",
        "run-unexpected-UnsubscribeEvent",
        "run-unexpected-SubscribeAllEvents",
        "run-unexpected-UnsubscribeAllEvents",
        "run-unexpected-SubscribeEventReply",
        "run-unexpected-SubscribeAllEventsReply",
        "run-unexpected-UnsubscribeAllEventsReply",
        "run-unexpected-SubscribeServiceReply",
        "run-unexpected-ServiceDestroyed",
    ],
    labels: &["events delivered"],
};

const CHANNELS: Focus = Focus {
    ops: Profile {
        len: (15, 100),
        ops: &[
            (Steps, 8),
            (Settle, 3),
            (Policy, 2),
            (Cancel, 2),
            (DropRes, 2),
            (CreateChan, 6),
            (Unbind, 5),
            (Bind, 6),
            (Claim, 12),
            (Establish, 10),
            (WaitEstablished, 1),
            (CloseEnd, 1),
            (Send, 20),
            (Recv, 16),
            (ReceiverClosed, 2),
            (SyncClient, 1),
            (Shutdown, 1),
        ],
        setup: &[],
    },
    names: &["create channel", "claim", "close", "establish", "wait established", "send", "receive", "receiver closed"],
    sigs: &[
        "claimed-twice",
        "run-unexpected-CreateChannelReply",
        "run-unexpected-CloseChannelEndReply",
        "run-unexpected-ChannelEndClosed",
        "run-unexpected-ClaimChannelEndReply",
        "run-unexpected-ChannelEndClaimed",
        "run-unexpected-ItemReceived",
        "run-unexpected-AddChannelCapacity",
    ],
    labels: &["items received"],
};

const LISTENERS: Focus = Focus {
    ops: Profile {
        len: (15, 90),
        ops: common!(
            (CreateObject, 4),
            (DestroyObject, 6),
            (CreateService, 4),
            (CreateServices, 3),
            (DestroyService, 4),
            (CreateLis, 5),
            (Filter, 10),
            (StartLis, 12),
            (StopLis, 6),
            (NextBus, 10),
            (DestroyLis, 1),
        ),
        setup: &[CreateLis, Filter, StartLis, CreateLis, Filter, Filter],
    },
    names: &["create listener", "start listener", "stop listener", "destroy listener", "next bus event"],
    sigs: &[
        "listener",
        "filters",
        "lost-wakeup",
        "hang-listener",
        "run-unexpected-EmitBusEvent",
        "run-unexpected-BusListenerCurrentFinished",
        "run-unexpected-CreateBusListenerReply",
        "run-unexpected-DestroyBusListenerReply",
        "run-unexpected-StartBusListenerReply",
        "run-unexpected-StopBusListenerReply",
    ],
    labels: &["bus events"],
};

fn focused(src: &mut Src, ctx: &mut Ctx, f: &Focus) -> Res {
    let cs = confs(src);
    let mut w = W::new(src, ctx.want_desc, cs)?;
    w.st.borrow_mut().check_subs = f.sigs.contains(&"subscription-left");
    let r = w.program(src, &f.ops).and_then(|()| w.finish(src));
    let op = w.st.borrow().fail_op;
    let r = done(&mut w, ctx, r, f.labels);
    let Err(e) = r else { return Ok(()) };
    let hang = f.names.iter().any(|n| e.sig == format!("hang-{}", n.replace(' ', "-")));
    if hang || f.sigs.contains(&e.sig.as_str()) || op.is_some_and(|o| f.names.contains(&o)) {
        Err(e)
    } else {
        // The business of C06.
        ctx.count("given up");
        Ok(())
    }
}

pub fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    focused(src, ctx, &CALLS)
}

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    focused(src, ctx, &REGISTRY)
}

pub fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    focused(src, ctx, &EVENTS)
}

pub fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    focused(src, ctx, &CHANNELS)
}

pub fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    focused(src, ctx, &LISTENERS)
}

pub fn api02(src: &mut Src, ctx: &mut Ctx) -> Res {
    crate::api::focused(src, ctx, &[16, 6, 1, 5, 1], |f| {
        [
            "api-hang-call",
            "api-hang-aborted",
            "api-answer",
            "api-dispatch",
            "api-call",
            "api-invalid-call",
            "api-fallback",
            "api-pending",
            "api-reply",
            "api-result",
            "api-number",
            "api-aborted",
        ]
        .iter()
        .any(|p| f.sig.starts_with(p))
    })
}

pub fn api04(src: &mut Src, ctx: &mut Ctx) -> Res {
    crate::api::focused(src, ctx, &[2, 6, 16, 1, 1], |f| {
        ["api-hang-sub", "api-hang-end", "api-emit", "api-event", "api-subscribe", "api-unsubscribe"]
            .iter()
            .any(|p| f.sig.starts_with(p))
    })
}

pub fn api05(src: &mut Src, ctx: &mut Ctx) -> Res {
    crate::api::focused(src, ctx, &[1, 5, 1, 1, 14], |f| {
        [
            "api-hang-channel",
            "api-send",
            "api-receiver-closed",
            "api-close",
            "api-items",
            "api-terminated",
            "api-establish",
            "api-create-channel",
            "api-claim",
        ]
        .iter()
        .any(|p| f.sig.starts_with(p))
    })
}

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C19",
        level: "exploration",
        rule: "a discoverer event, a found object or an ended lifetime, and an object or service destroyed explicitly",
        assumptions: &["in-memory transports; one deterministic executor; the bus history as told to a raw listener is the reference"],
        parts: vec![Part::new("discovery", Kind::Random(60_000, 3_000_000), c19).fresh().secs(40, 900), Part::new("watchers", Kind::Random(25_000, 1_500_000), watchers).fresh().secs(20, 600)],
    }, Property {
        id: "C15",
        level: "fault_enumeration",
        rule: "the scenario has at least six operations and the victim at least twenty transport operations",
        assumptions: &["in-memory transports; one deterministic executor"],
        parts: vec![Part::new("terminations", Kind::Random(800, 40_000), c15).fresh().secs(40, 900), Part::new("api", Kind::Random(20_000, 1_000_000), crate::api::c15).fresh().secs(15, 600)],
    }, Property {
        id: "C06",
        level: "exploration",
        rule: "a reply, an event or a channel item reaches another operation",
        assumptions: &["in-memory transports; one deterministic executor"],
        parts: vec![Part::new("programs", Kind::Random(60_000, 3_000_000), c06).fresh().secs(30, 900), Part::new("api", Kind::Random(20_000, 1_000_000), crate::api::c06).fresh().secs(15, 600)],
    }]
}
