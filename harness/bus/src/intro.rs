//! C09: introspection queries when connections end. Which provider the broker asks is random, so
//! the model keeps every state the broker can be in and drops those that contradict what is seen.
use crate::c09::end;
use crate::msgs::{Frame, F};
use crate::ops::uuid_of;
use crate::props::finish_case;
use crate::world::{frame, frame_v, Life, Stop, World};
use std::collections::{BTreeMap, BTreeSet};
use vp::wire::{self, Epoch};
use vp::{Ctx, Res, Src};

const TYPES: usize = 3;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Msg {
    /// The broker asks for a type.
    Query(usize),
    /// Somebody's query is answered.
    Reply(u32, Option<u8>),
}

#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Entry {
    regs: BTreeSet<usize>,
    cached: Option<u8>,
    queried: Option<usize>,
    pending: Vec<(usize, u32)>,
}

#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord)]
struct State {
    /// The broker has not noticed that the connection is gone.
    alive: Vec<bool>,
    types: BTreeMap<usize, Entry>,
    out: BTreeSet<(usize, Msg)>,
    /// The same message twice.
    twice: bool,
    gone: Vec<usize>,
}

#[derive(Debug, Clone)]
enum Ev {
    Register(usize, Vec<usize>),
    Query(usize, usize, u32),
    Reply(usize, usize, Option<u8>),
    End(usize),
}

/// Enumerates the choices of the broker.
#[derive(Default)]
struct Choices {
    taken: Vec<(usize, usize)>,
    pos: usize,
}

impl Choices {
    fn pick(&mut self, n: usize) -> usize {
        if self.pos == self.taken.len() {
            self.taken.push((0, n));
        }
        self.pos += 1;
        self.taken[self.pos - 1].0
    }

    fn next(&mut self) -> bool {
        self.pos = 0;
        while let Some((k, n)) = self.taken.pop() {
            if k + 1 < n {
                self.taken.push((k + 1, n));
                return true;
            }
        }
        false
    }
}

impl State {
    fn send(&mut self, dead: &[bool], c: usize, m: Msg) {
        if dead[c] {
            self.gone.push(c);
        } else if self.alive[c] && !self.out.insert((c, m)) {
            self.twice = true;
        }
    }

    fn ask(&mut self, dead: &[bool], ch: &mut Choices, t: usize) {
        let Some(e) = self.types.get_mut(&t) else { return };
        // Nobody waits any more: it does not matter whether the broker asks on.
        if e.pending.is_empty() && ch.pick(2) == 1 {
            return;
        }
        let k = ch.pick(e.regs.len());
        let c = *e.regs.iter().nth(k).unwrap();
        e.queried = Some(c);
        self.send(dead, c, Msg::Query(t));
    }

    /// Takes the connection off the providers of a type.
    fn unregister(&mut self, dead: &[bool], ch: &mut Choices, c: usize, t: usize) {
        let e = self.types.get_mut(&t).unwrap();
        let asked = e.queried == Some(c);
        if asked {
            e.queried = None;
        }
        e.regs.remove(&c);
        if e.regs.is_empty() {
            let e = self.types.remove(&t).unwrap();
            for (c, s) in e.pending {
                self.send(dead, c, Msg::Reply(s, None));
            }
        } else if asked {
            self.ask(dead, ch, t);
        }
    }

    fn remove(&mut self, dead: &[bool], ch: &mut Choices, c: usize) {
        if !self.alive[c] {
            return;
        }
        self.alive[c] = false;
        for e in self.types.values_mut() {
            e.pending.retain(|p| p.0 != c);
        }
        let mine: Vec<usize> = self.types.iter().filter(|(_, e)| e.regs.contains(&c)).map(|x| *x.0).collect();
        for t in mine {
            self.unregister(dead, ch, c, t);
        }
    }

    fn apply(&mut self, dead: &[bool], ch: &mut Choices, ev: &Ev) {
        match ev {
            Ev::Register(c, ts) => {
                if self.alive[*c] {
                    for t in ts {
                        self.types.entry(*t).or_default().regs.insert(*c);
                    }
                }
            }
            Ev::Query(c, t, s) => {
                if !self.alive[*c] {
                    return;
                }
                match self.types.get_mut(t) {
                    None => self.send(dead, *c, Msg::Reply(*s, None)),
                    Some(Entry { cached: Some(v), .. }) => {
                        let v = *v;
                        self.send(dead, *c, Msg::Reply(*s, Some(v)))
                    }
                    Some(e) => {
                        e.pending.push((*c, *s));
                        if e.queried.is_none() {
                            self.ask(dead, ch, *t);
                        }
                    }
                }
            }
            Ev::Reply(c, t, v) => {
                let Some(e) = self.types.get_mut(t) else { return };
                if !self.alive[*c] || e.queried != Some(*c) {
                    return;
                }
                if let Some(v) = v {
                    e.queried = None;
                    e.cached = Some(*v);
                    for (c, s) in std::mem::take(&mut e.pending) {
                        self.send(dead, c, Msg::Reply(s, Some(*v)));
                    }
                } else {
                    // The broker forgets what the one that answers asked itself. No connection has
                    // ended, so C09 does not care.
                    if e.pending.iter().any(|p| p.0 == *c) && ch.pick(2) == 1 {
                        e.pending.retain(|p| p.0 != *c);
                    }
                    self.unregister(dead, ch, *c, *t);
                }
            }
            Ev::End(c) => self.remove(dead, ch, *c),
        }
        while let Some(c) = self.gone.pop() {
            self.remove(dead, ch, c);
        }
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out
}

fn after(states: &BTreeSet<State>, dead: &[bool], evs: &[Ev]) -> BTreeSet<State> {
    let mut res = BTreeSet::new();
    for s in states {
        for p in permutations(evs.len()) {
            let mut ch = Choices::default();
            loop {
                let mut x = s.clone();
                for k in &p {
                    x.apply(dead, &mut ch, &evs[*k]);
                }
                if !x.twice {
                    res.insert(x);
                }
                if !ch.next() {
                    break;
                }
            }
        }
    }
    res
}

struct Run {
    dead: Vec<bool>,
    serials: Vec<u32>,
    states: BTreeSet<State>,
    /// Queries the connections were sent and have not answered: (connection, serial, type).
    asked: Vec<(usize, u32, usize)>,
    replies: u64,
    lost: u64,
    noticed: u64,
}

fn ty(f: &Frame) -> Option<usize> {
    (0..TYPES).find(|t| f.fields.contains(&F::I(uuid_of(*t))))
}

impl Run {
    fn join(&mut self, w: &mut World, src: &mut Src) -> Result<(), Stop> {
        let v = *src.pick(&[20u32, 17, 18, 19]);
        let Some(c) = w.connect(v, false, vec![0])? else { return Ok(()) };
        w.send(c, frame(3, vec![F::U(0), F::I(uuid_of(10 + c))]));
        w.check_quiet(src)?;
        self.dead.push(false);
        self.serials.push(0);
        self.states = std::mem::take(&mut self.states)
            .into_iter()
            .map(|mut s| {
                s.alive.push(true);
                s
            })
            .collect();
        Ok(())
    }

    fn statistics(&mut self, w: &mut World, src: &mut Src) -> Result<(usize, usize), Stop> {
        let mut h = w.handle.clone().unwrap();
        let s = w.call_handle(src, async move { h.take_statistics().await.map(|s| (s.num_connections(), s.num_objects())) })?;
        s.map_err(|e| w.problem(true, "broker-stopped", format!("no statistics: {e:?}")))
    }

    fn batch(&mut self, w: &mut World, src: &mut Src) -> Result<(), Stop> {
        let mut evs = vec![];
        let n = src.weighted(&[5, 3, 2]) + 1;
        let mut used = BTreeSet::new();
        for _ in 0..n {
            let live: Vec<usize> = w.live().into_iter().filter(|c| !used.contains(c)).collect();
            if live.is_empty() {
                break;
            }
            let c = *src.pick(&live);
            // Answering what one was asked is what drives things.
            let asked: Vec<usize> = (0..self.asked.len()).filter(|k| live.contains(&self.asked[*k].0)).collect();
            match src.weighted(&[3, 6, if asked.is_empty() { 0 } else { 6 }, 2, 3, 1]) {
                0 => {
                    let ts: Vec<usize> = (0..TYPES).filter(|_| src.bool()).collect();
                    let set = ts.iter().map(|t| wire::K::Uuid(uuid_of(*t))).collect();
                    let e = if w.conns[c].version < 20 { Epoch::V1 } else { Epoch::V2 };
                    w.send(c, frame_v(49, vec![], wire::encode_canonical(&wire::N::Set(9, set), e)));
                    evs.push(Ev::Register(c, ts));
                    used.insert(c);
                }
                1 => {
                    let s = self.serials[c];
                    self.serials[c] += 1;
                    let t = src.us(TYPES);
                    w.send(c, frame(50, vec![F::U(s), F::I(uuid_of(t))]));
                    evs.push(Ev::Query(c, t, s));
                    used.insert(c);
                }
                2 => {
                    let k = *src.pick(&asked);
                    let (c, s, t) = self.asked.remove(k);
                    let v = if src.chance(1, 2) { Some(src.byte()) } else { None };
                    w.send(
                        c,
                        match v {
                            Some(v) => frame_v(51, vec![F::U(s), F::D(0)], vec![3, v]),
                            None => frame_v(51, vec![F::U(s), F::D(1)], vec![0]),
                        },
                    );
                    evs.push(Ev::Reply(c, t, v));
                    used.insert(c);
                }
                3 => {
                    match src.us(3) {
                        0 => w.client_shutdown(c),
                        1 => w.inject(c, 0),
                        _ => w.force(c)?,
                    }
                    self.dead[c] |= w.conns[c].life == Life::Dropped;
                    evs.push(Ev::End(c));
                    used.insert(c);
                }
                4 => {
                    // The broker notices only once it wants something of the connection.
                    w.drop_conn(c)?;
                    self.dead[c] = true;
                    self.lost += 1;
                    used.insert(c);
                }
                _ => {
                    let gone: Vec<usize> = (0..self.dead.len()).filter(|c| self.dead[*c]).collect();
                    if !gone.is_empty() {
                        let c = *src.pick(&gone);
                        w.force(c)?;
                        evs.push(Ev::End(c));
                    }
                }
            }
        }
        self.asked.retain(|a| !w.conns[a.0].ending && w.conns[a.0].life == Life::Live);
        w.check_quiet(src)?;
        w.answer_shutdowns();
        w.check_quiet(src)?;
        self.compare(w, src, &evs)
    }

    fn compare(&mut self, w: &mut World, src: &mut Src, evs: &[Ev]) -> Result<(), Stop> {
        let ended: Vec<usize> = evs.iter().filter_map(|e| if let Ev::End(c) = e { Some(*c) } else { None }).collect();
        let mut seen = BTreeSet::new();
        for (c, f) in std::mem::take(&mut w.intro) {
            let n = match f.fields[0] {
                F::U(n) => n,
                _ => unreachable!(),
            };
            let m = if f.kind == 50 {
                let Some(t) = ty(&f) else {
                    return Err(w.problem(true, "introspection-query", format!("connection {c} is asked for an unknown type")));
                };
                if w.live().contains(&c) {
                    self.asked.push((c, n, t));
                }
                Msg::Query(t)
            } else {
                self.replies += 1;
                match &f.value {
                    Some(v) if v.len() == 2 && v[0] == 3 && f.fields[1] == F::D(0) => Msg::Reply(n, Some(v[1])),
                    _ if f.fields[1] == F::D(1) => Msg::Reply(n, None),
                    v => return Err(w.problem(true, "introspection-reply", format!("connection {c} is answered by {v:02x?}"))),
                }
            };
            if !ended.contains(&c) && !seen.insert((c, m)) {
                return Err(w.problem(true, "introspection-twice", format!("connection {c} is sent {m:?} twice")));
            }
        }
        let stats = self.statistics(w, src)?;
        let all = after(&self.states, &self.dead, evs);
        let n = all.len();
        let mut fits = BTreeSet::new();
        let mut wanted = vec![];
        for mut s in all {
            s.out.retain(|x| !ended.contains(&x.0));
            let k = s.alive.iter().filter(|x| **x).count();
            if s.out == seen && stats == (k, k) {
                s.out.clear();
                fits.insert(s);
            } else {
                wanted.push((s.out, k));
            }
        }
        if fits.is_empty() {
            wanted.truncate(3);
            let m = format!(
                "after {evs:?} the connections are sent {seen:?} and (connections, objects) is {stats:?}; none of the {n} \
                 possible outcomes is that, but for example {wanted:?}"
            );
            return Err(w.problem(true, "introspection", m));
        }
        let k = |s: &BTreeSet<State>| s.iter().map(|s| s.alive.iter().filter(|x| **x).count()).min().unwrap_or(0);
        if !evs.iter().any(|e| matches!(e, Ev::End(_))) && k(&fits) < k(&self.states) {
            self.noticed += 1;
        }
        self.states = fits;
        Ok(())
    }
}

fn run(w: &mut World, src: &mut Src, r: &mut Run) -> Result<(), Stop> {
    let n = src.range(2, 4);
    for _ in 0..n {
        r.join(w, src)?;
    }
    let n = src.range(4, 30);
    for _ in 0..n {
        if (w.live().len() < 2 && src.chance(2, 3) || src.chance(1, 16)) && w.conns.len() < 6 {
            r.join(w, src)?;
        }
        r.batch(w, src)?;
    }
    // Everybody leaves.
    for c in w.live() {
        let way = src.us(3);
        end(w, src, c, way)?;
        w.check_quiet(src)?;
        w.answer_shutdowns();
        w.check_quiet(src)?;
    }
    for c in 0..w.conns.len() {
        if r.dead[c] {
            w.force(c)?;
        }
    }
    w.check_quiet(src)?;
    let s = r.statistics(w, src)?;
    if s != (0, 0) {
        return Err(w.problem(true, "statistics", format!("everybody left, but (connections, objects) is {s:?}")));
    }
    w.stop_broker(true)?;
    w.check_quiet(src)
}

pub fn part(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(&[2], ctx.want_desc);
    let mut r = Run {
        dead: vec![],
        serials: vec![],
        states: BTreeSet::from([State::default()]),
        asked: vec![],
        replies: 0,
        lost: 0,
        noticed: 0,
    };
    let res = run(&mut w, src, &mut r);
    ctx.nontrivial = r.replies >= 1 && r.states.iter().any(|s| s.alive.contains(&false));
    ctx.count_n("introspection replies", r.replies);
    ctx.count_n("tasks dropped", r.lost);
    ctx.count_n("losses noticed", r.noticed);
    finish_case(&mut w, ctx, &[], res)
}
