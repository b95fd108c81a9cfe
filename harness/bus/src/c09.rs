//! C09: cleanup when connections end, exact counters, shutdown of the broker.
use crate::msgs::F;
use crate::ops::{self, Op, Profile};
use crate::props::finish_case;
use crate::world::{frame, Life, Stop, World};
use vp::{Ctx, Kind, Part, Property, Res, Src};
use Op::*;

const KINDS: &[u8] = &[2, 12, 15, 48, 60, 23, 32, 44];

const PROFILE: Profile = Profile {
    conns: (2, 4),
    max_conns: 4,
    len: (5, 60),
    ops: &[
        (CreateObject, 6),
        (DestroyObject, 2),
        (CreateService, 8),
        (DestroyService, 2),
        (Call, 8),
        (Reply, 2),
        (Abort, 2),
        (SubEvent, 8),
        (UnsubEvent, 1),
        (Emit, 2),
        (SubAll, 5),
        (UnsubAll, 1),
        (SubSvc, 4),
        (CreateChan, 6),
        (ClaimChan, 7),
        (CloseChan, 2),
        (SendItem, 2),
        (AddCap, 2),
        (CreateLis, 3),
        (DestroyLis, 1),
        (AddFilter, 4),
        (StartLis, 3),
        (Connect, 5),
        (Shutdown, 2),
        (Error, 2),
        (Force, 2),
        (Drop, 2),
        (Stall, 1),
        (Unstall, 1),
        (Probe, 6),
        (Snapshot, 6),
    ],
    setup: &[CreateObject, CreateService, SubEvent, Call, CreateLis, AddFilter, StartLis, SubAll, CreateChan, ClaimChan],
};

const INTRO_PROFILE: Profile = Profile {
    conns: (2, 4),
    max_conns: 4,
    len: (10, 60),
    ops: &[
        (RegisterIntro, 8),
        (QueryIntro, 12),
        (ReplyIntro, 8),
        (CreateObject, 3),
        (CreateService, 3),
        (CreateChan, 2),
        (Call, 3),
        (Connect, 5),
        (Shutdown, 2),
        (Error, 2),
        (Force, 2),
        (Stall, 1),
        (Unstall, 1),
        (Probe, 3),
        (Snapshot, 3),
    ],
    setup: &[RegisterIntro, QueryIntro, CreateObject],
};

/// Ends a connection in one of the four ways.
pub fn end(w: &mut World, src: &mut Src, c: usize, way: usize) -> Result<(), Stop> {
    match way {
        0 => w.client_shutdown(c),
        1 => {
            let how = src.us(3);
            w.inject(c, how);
        }
        2 => w.force(c)?,
        _ => w.drop_conn(c)?,
    }
    Ok(())
}

/// Dropped connections the broker has had no reason to notice (a known finding).
fn notice(w: &mut World) -> Result<(), Stop> {
    for c in 0..w.conns.len() {
        if w.conns[c].life == Life::Dropped && w.model.conns[c].alive {
            w.force(c)?;
        }
    }
    Ok(())
}

fn handle_refuses(w: &mut World, src: &mut Src) -> Result<(), Stop> {
    let mut h = w.handle.clone().unwrap();
    let r = w.call_handle(src, async move { h.take_statistics().await.is_err() })?;
    if !r {
        return Err(w.problem(true, "stopped-broker-answers", "a stopped broker answers statistics requests".into()));
    }
    Ok(())
}

fn ending(w: &mut World, src: &mut Src, how: usize, can_drop: bool) -> Result<(), Stop> {
    let ways = if can_drop { 4 } else { 3 };
    match how {
        0 => {
            // Everybody leaves, in any order and way, mixed with steps.
            loop {
                let live = w.live();
                if live.is_empty() {
                    break;
                }
                let c = *src.pick(&live);
                let way = src.us(ways);
                end(w, src, c, way)?;
                let k = src.us(6);
                ops::steps(w, src, k)?;
                if src.chance(1, 3) {
                    w.probe(src.bool())?;
                }
                if src.chance(1, 3) {
                    w.check_quiet(src)?;
                }
            }
            w.check_quiet(src)?;
            w.answer_shutdowns();
            w.check_quiet(src)?;
            notice(w)?;
            w.check_quiet(src)?;
            let alive = w.model.conns.iter().filter(|c| c.alive).count();
            if alive > 0 {
                return Err(w.problem(false, "?", format!("{alive} connections left")));
            }
            if !w.model.shutdown_idle {
                w.probe(false)?;
                w.probe(true)?;
                w.check_quiet(src)?;
                w.stop_broker(true)?;
            }
            w.check_quiet(src)?;
        }
        _ => {
            w.stop_broker(false)?;
            let k = src.us(8);
            ops::steps(w, src, k)?;
            if src.chance(1, 4) {
                let live = w.live();
                if !live.is_empty() {
                    let c = *src.pick(&live);
                    let way = src.us(2);
                    end(w, src, c, way)?;
                }
            }
            w.check_quiet(src)?;
            w.answer_shutdowns();
            w.check_quiet(src)?;
        }
    }
    for c in 0..w.conns.len() {
        if w.exec.alive(w.conns[c].task) {
            let m = format!("the task of connection {c} ({:?}) is still there", w.conns[c].life);
            return Err(w.problem(true, "task-does-not-end", m));
        }
    }
    handle_refuses(w, src)
}

fn run(w: &mut World, src: &mut Src, p: &Profile, can_drop: bool) -> Result<(), Stop> {
    let early_idle = src.chance(1, 5);
    ops::history(w, src, p)?;
    if src.bool() {
        w.check_quiet(src)?;
    }
    if early_idle {
        w.stop_broker(true)?;
        let k = src.us(6);
        ops::steps(w, src, k)?;
        let n = src.us(10);
        for _ in 0..n {
            if w.live().is_empty() {
                break;
            }
            let op = p.ops[src.us(p.ops.len())].0;
            ops::apply(w, src, p, op)?;
            let k = src.us(4);
            ops::steps(w, src, k)?;
            if src.chance(1, 4) {
                w.check_quiet(src)?;
            }
        }
    }
    let how = src.weighted(&[3, 2]);
    ending(w, src, how, can_drop)
}

const LABELS: &[(u8, &str)] = &[
    (12, "replies delivered"),
    (15, "owner told to stop an event"),
    (60, "owner told to stop all events"),
    (48, "aborts forwarded"),
    (23, "channel ends closed"),
    (32, "service destroyed notices"),
    (44, "bus events"),
];

fn done(w: &mut World, ctx: &mut Ctx, r: Result<(), Stop>) -> Res {
    let m = |k| w.matched.get(&k).copied().unwrap_or(0);
    let told = m(12) + m(15) + m(60) + m(48) + m(23) + m(32) + m(44);
    ctx.nontrivial = w.probed >= 1 && told >= 1;
    ctx.count_n("probes", w.probed);
    finish_case(w, ctx, LABELS, r)
}

fn histories(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(KINDS, ctx.want_desc);
    w.check_probes = true;
    let r = run(&mut w, src, &PROFILE, true);
    done(&mut w, ctx, r)
}

fn introspection(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(KINDS, ctx.want_desc);
    w.check_probes = true;
    let r = run(&mut w, src, &INTRO_PROFILE, false);
    let res = done(&mut w, ctx, r);
    ctx.nontrivial = w.probed >= 1;
    res
}

const POINTS: u64 = 14;
const WAYS: u64 = 4;
const CONNS: u64 = 3;

/// A scenario in which one connection ends in one way after one of the steps.
fn crash_point(w: &mut World, src: &mut Src, i: u64) -> Result<(), Stop> {
    let (way, i) = (i % WAYS, i / WAYS);
    let (conn, i) = (i % CONNS, i / CONNS);
    let (point, i) = (i % POINTS, i / POINTS);
    let mut sub = Src::random(vp::mix(i ^ 0xC09));
    let sub = &mut sub;
    for _ in 0..CONNS {
        let v = *sub.pick(&[20u32, 20, 19, 18, 17, 15]);
        w.connect(v, false, vec![0])?;
    }
    for _ in 0..sub.range(1, 3) {
        for op in PROFILE.setup {
            ops::apply(w, sub, &PROFILE, *op)?;
            w.quiesce(sub)?;
        }
    }
    // The operation at the crash point is still under way when the connection ends.
    let ops_list: Vec<Op> =
        PROFILE.ops.iter().map(|x| x.0).filter(|o| !matches!(o, Connect | Shutdown | Error | Force | Drop)).collect();
    for k in 0..POINTS {
        let op = *sub.pick(&ops_list);
        ops::apply(w, sub, &PROFILE, op)?;
        let n = sub.us(5);
        if k == point {
            ops::steps(w, sub, n)?;
            end(w, src, conn as usize, way as usize)?;
            w.check_quiet(src)?;
            w.answer_shutdowns();
            w.check_quiet(src)?;
            w.probe(true)?;
            w.probe(false)?;
            if way == 3 && sub.bool() {
                notice(w)?;
                w.probe(true)?;
            }
            w.check_quiet(src)?;
        }
        w.quiesce(sub)?;
    }
    w.probe(true)?;
    w.probe(false)?;
    w.check_quiet(src)?;
    ending(w, sub, 0, true)
}

fn crash_points(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = src.u64();
    let mut w = World::new(KINDS, ctx.want_desc);
    w.check_probes = true;
    let r = crash_point(&mut w, src, i);
    done(&mut w, ctx, r)
}

/// The known finding: the task of a connection is dropped and nothing is sent to it afterwards.
fn dropped_task(src: &mut Src, ctx: &mut Ctx) -> Res {
    let idle = src.u64() == 1;
    let mut w = World::new(KINDS, ctx.want_desc);
    let r = (|| -> Result<(), Stop> {
        w.connect(20, false, vec![0])?;
        w.connect(20, false, vec![0])?;
        w.send(0, frame(3, vec![F::U(0), F::I(ops::uuid_of(0))]));
        w.check_quiet(src)?;
        w.drop_conn(0)?;
        w.send(1, frame(30, vec![F::U(0)]));
        w.check_quiet(src)?;
        if idle {
            w.client_shutdown(1);
            w.stop_broker(true)?;
            w.quiesce(src)?;
            if !*w.broker_done.borrow() {
                let m = "the task of a connection was dropped, all others left, and the idle shutdown does not complete";
                return Err(w.problem(true, "dropped-task-blocks-idle-shutdown", m.into()));
            }
            return Ok(());
        }
        let mut h = w.handle.clone().unwrap();
        let s = w.call_handle(src, async move { h.take_statistics().await.map(|s| (s.num_connections(), s.num_objects())) })?;
        if s != Ok((1, 0)) {
            let m = format!("the task of a connection that owns an object was dropped; (connections, objects) is {s:?}");
            return Err(w.problem(true, "dropped-task-not-noticed", m));
        }
        Ok(())
    })();
    ctx.nontrivial = true;
    finish_case(&mut w, ctx, LABELS, r)
}

pub fn property() -> Property {
    Property {
        id: "C09",
        level: "fault_enumeration",
        rule: "at least one statistics or snapshot request is compared and at least one peer is notified of something",
        assumptions: &[
            "raw clients speak the protocol over in-memory transports; the order in which messages reach the broker's queue is recorded at the transport and drives the reference model",
            "a dropped connection task counts as ended once the broker notices it (known finding)",
            "the sizes of the broker's maps come from the read-only hook verif_snapshot",
            "the reference model in harness/bus/src/model.rs",
        ],
        parts: vec![
            Part::new("dropped task", Kind::Enumerate(|_| 2), dropped_task).fresh().secs(20, 20),
            Part::new(
                "crash points",
                Kind::Enumerate(|t| if t { 4000 * POINTS * WAYS * CONNS } else { 400 * POINTS * WAYS * CONNS }),
                crash_points,
            )
            .fresh()
            .secs(25, 900),
            Part::new("histories", Kind::Random(150_000, 4_000_000), histories).fresh().secs(25, 900),
            Part::new("introspection", Kind::Random(20_000, 600_000), introspection).fresh().secs(10, 300),
            Part::new("introspection and lost connections", Kind::Random(60_000, 3_000_000), crate::intro::part).fresh().secs(20, 600),
        ],
    }
}
