//! C02, C03, C04, C05, C10: histories against the reference model.
use crate::ops::{self, Op, Profile};
use crate::world::{settle, Stop, World};
use vp::{Ctx, Kind, Part, Property, Res, Src};
use Op::*;


pub fn finish_case(w: &mut World, ctx: &mut Ctx, labels: &[(u8, &'static str)], r: Result<(), Stop>) -> Res {
    for (k, l) in labels {
        ctx.count_n(l, w.matched.get(k).copied().unwrap_or(0));
    }
    ctx.count_n("broker events", w.events);
    if w.diverged.is_some() {
        ctx.count("diverged outside the property");
    }
    if ctx.want_desc {
        let t = w.trace.join("\n");
        ctx.describe(|| t);
        if let Some(d) = &w.diverged {
            let d = d.clone();
            ctx.describe(|| format!("DIVERGED (not this property): {d}"));
        }
    }
    settle(r)
}

const C02_KINDS: &[u8] = &[11, 62, 12, 48];
const C02_PROFILE: Profile = Profile {
    conns: (2, 4),
    max_conns: 4,
    len: (10, 70),
    ops: &[
        (CreateObject, 4),
        (CreateService, 6),
        (Call, 24),
        (Reply, 16),
        (Abort, 8),
        (DestroyService, 2),
        (DestroyObject, 2),
        (Sync, 1),
        (Connect, 3),
        (Shutdown, 1),
        (Error, 1),
        (Force, 1),
        (Drop, 1),
        (Stall, 1),
        (Unstall, 1),
        (Quiesce, 1),
    ],
    setup: &[CreateObject, CreateService, Call],
};

fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(C02_KINDS, ctx.want_desc);
    let r = ops::history(&mut w, src, &C02_PROFILE).and_then(|()| ops::finish(&mut w, src));
    let m = |k| w.matched.get(&k).copied().unwrap_or(0);
    ctx.nontrivial = m(62) >= 2 && m(12) >= 2;
    finish_case(&mut w, ctx, &[(62, "calls forwarded"), (12, "replies delivered"), (48, "aborts forwarded")], r)
}

const C03_KINDS: &[u8] = &[4, 6, 8, 10, 14, 18, 54, 56, 59, 61, 12];
const C03_PROFILE: Profile = Profile {
    conns: (2, 4),
    max_conns: 4,
    len: (10, 80),
    ops: &[
        (CreateObject, 16),
        (DestroyObject, 10),
        (CreateService, 24),
        (DestroyService, 10),
        (QueryVersion, 5),
        (QueryInfo, 5),
        (SubEvent, 3),
        (SubSvc, 3),
        (SubAll, 3),
        (UnsubAll, 1),
        (Call, 4),
        (Connect, 3),
        (Shutdown, 1),
        (Error, 1),
        (Force, 1),
        (Drop, 1),
        (Stall, 1),
        (Unstall, 1),
    ],
    setup: &[CreateObject, CreateService],
};

fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(C03_KINDS, ctx.want_desc);
    let r = ops::history(&mut w, src, &C03_PROFILE).and_then(|()| ops::finish(&mut w, src));
    let m = |k| w.matched.get(&k).copied().unwrap_or(0);
    ctx.nontrivial = m(4) + m(8) >= 4 && m(6) + m(10) >= 1;
    finish_case(
        &mut w,
        ctx,
        &[
            (4, "create object replies"),
            (6, "destroy object replies"),
            (8, "create service replies"),
            (10, "destroy service replies"),
            (18, "version query replies"),
            (54, "info query replies"),
        ],
        r,
    )
}

const C04_KINDS: &[u8] = &[16, 13, 15, 58, 60, 32, 14, 59, 61];
const C04_PROFILE: Profile = Profile {
    conns: (2, 4),
    max_conns: 4,
    len: (15, 80),
    ops: &[
        (CreateObject, 3),
        (CreateService, 6),
        (DestroyService, 2),
        (DestroyObject, 1),
        (SubEvent, 14),
        (UnsubEvent, 8),
        (SubAll, 9),
        (UnsubAll, 6),
        (SubSvc, 3),
        (UnsubSvc, 2),
        (Emit, 16),
        (Connect, 3),
        (Shutdown, 1),
        (Error, 1),
        (Force, 1),
        (Drop, 1),
        (Stall, 1),
        (Unstall, 1),
    ],
    setup: &[CreateObject, CreateService, SubEvent, SubAll, SubEvent, Emit],
};

fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(C04_KINDS, ctx.want_desc);
    let r = ops::history(&mut w, src, &C04_PROFILE).and_then(|()| ops::finish(&mut w, src));
    let m = |k| w.matched.get(&k).copied().unwrap_or(0);
    ctx.nontrivial = m(16) >= 1 && m(13) + m(58) >= 1 && m(14) + m(59) >= 2;
    finish_case(
        &mut w,
        ctx,
        &[
            (16, "events delivered"),
            (13, "owner told to start an event"),
            (15, "owner told to stop an event"),
            (58, "owner told to start all events"),
            (60, "owner told to stop all events"),
            (32, "service destroyed notices"),
        ],
        r,
    )
}

const C05_KINDS: &[u8] = &[20, 22, 23, 25, 26, 28, 29];
const C05_PROFILE: Profile = Profile {
    conns: (2, 3),
    max_conns: 3,
    len: (15, 80),
    ops: &[
        (CreateChan, 8),
        (ClaimChan, 10),
        (CloseChan, 3),
        (SendItem, 16),
        (SendBurst, 8),
        (AddCap, 12),
        (OverSend, 1),
        (Connect, 2),
        (Shutdown, 1),
        (Error, 1),
        (Force, 1),
        (Drop, 1),
        (Stall, 1),
        (Unstall, 1),
    ],
    setup: &[CreateChan, ClaimChan, SendItem],
};

fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(C05_KINDS, ctx.want_desc);
    let r = ops::history(&mut w, src, &C05_PROFILE).and_then(|()| ops::finish(&mut w, src));
    let m = |k| w.matched.get(&k).copied().unwrap_or(0);
    ctx.nontrivial = m(28) >= 3 || m(29) >= 1 || m(23) >= 2;
    ctx.count_n("over-sends", w.over);
    finish_case(
        &mut w,
        ctx,
        &[
            (28, "items delivered"),
            (29, "credit announcements"),
            (25, "claim replies"),
            (26, "claims announced"),
            (23, "closes announced"),
        ],
        r,
    )
}

const C10_KINDS: &[u8] = &[34, 36, 41, 43, 44, 45];
const C10_PROFILE: Profile = Profile {
    conns: (1, 4),
    max_conns: 4,
    len: (15, 80),
    ops: &[
        (CreateObject, 14),
        (DestroyObject, 5),
        (CreateService, 16),
        (DestroyService, 4),
        (CreateLis, 5),
        (DestroyLis, 1),
        (AddFilter, 14),
        (RemoveFilter, 3),
        (ClearFilters, 1),
        (StartLis, 9),
        (StopLis, 4),
        (Connect, 2),
        (Shutdown, 1),
        (Error, 1),
        (Force, 1),
        (Drop, 1),
        (Stall, 1),
        (Unstall, 1),
    ],
    setup: &[CreateLis, AddFilter, AddFilter, StartLis, CreateObject, CreateService],
};

fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(C10_KINDS, ctx.want_desc);
    let r = ops::history(&mut w, src, &C10_PROFILE).and_then(|()| ops::finish(&mut w, src));
    let m = |k| w.matched.get(&k).copied().unwrap_or(0);
    ctx.nontrivial = m(44) >= 2 && m(41) >= 1;
    finish_case(
        &mut w,
        ctx,
        &[(44, "bus events"), (45, "current finished"), (41, "start replies"), (43, "stop replies")],
        r,
    )
}

const ASSUME: &[&str] = &[
    "raw clients speak the protocol over in-memory transports; the order in which messages reach the broker's queue is recorded at the transport and drives the reference model",
    "clients obey the version gates, do not reuse a serial that is pending and stay within the announced credit except where the case says so",
    "the reference model in harness/bus/src/model.rs",
];

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C02",
            level: "exploration",
            rule: "at least two calls are forwarded and at least two replies delivered",
            assumptions: ASSUME,
            parts: vec![
                Part::new("histories", Kind::Random(240_000, 8_000_000), c02).fresh().secs(35, 900),
                Part::new("clients", Kind::Random(24_000, 2_000_000), crate::clients::c02).fresh().secs(10, 600),
                Part::new("api", Kind::Random(12_000, 1_000_000), crate::clients::api02).fresh().secs(10, 600),
            ],
        },
        Property {
            id: "C03",
            level: "exploration",
            rule: "at least four creations and one destruction are answered",
            assumptions: ASSUME,
            parts: vec![
                Part::new("histories", Kind::Random(240_000, 8_000_000), c03).fresh().secs(35, 900),
                Part::new("clients", Kind::Random(24_000, 2_000_000), crate::clients::c03).fresh().secs(10, 600),
            ],
        },
        Property {
            id: "C04",
            level: "exploration",
            rule: "an event is delivered, an owner is told to start, and two subscriptions are answered",
            assumptions: ASSUME,
            parts: vec![
                Part::new("histories", Kind::Random(240_000, 8_000_000), c04).fresh().secs(35, 900),
                Part::new("clients", Kind::Random(24_000, 2_000_000), crate::clients::c04).fresh().secs(10, 600),
                Part::new("api", Kind::Random(12_000, 1_000_000), crate::clients::api04).fresh().secs(10, 600),
            ],
        },
        Property {
            id: "C05",
            level: "exploration",
            rule: "three items are delivered, or credit is announced, or two closes are announced",
            assumptions: ASSUME,
            parts: vec![
                Part::new("histories", Kind::Random(240_000, 8_000_000), c05).fresh().secs(35, 900),
                Part::new("clients", Kind::Random(24_000, 2_000_000), crate::clients::c05).fresh().secs(10, 600),
                Part::new("api", Kind::Random(12_000, 1_000_000), crate::clients::api05).fresh().secs(10, 600),
            ],
        },
        Property {
            id: "C10",
            level: "exploration",
            rule: "two bus events and one start reply are observed",
            assumptions: ASSUME,
            parts: vec![
                Part::new("histories", Kind::Random(240_000, 8_000_000), c10).fresh().secs(35, 900),
                Part::new("clients", Kind::Random(24_000, 2_000_000), crate::clients::c10).fresh().secs(10, 600),
            ],
        },
    ]
}
