//! Runs a real broker with scripted raw connections under a generated schedule and compares every
//! message with the reference model.
use crate::model::{self, min_version, Exp, Id, Model, Sym, P, V};
use crate::msgs::{Frame, F};
use crate::sim::{frame_of, now, Ev, Exec, In, Log, Pipe, Port, PortError};
use aldrin_broker::{Broker, BrokerHandle, ConnectionError, ConnectionHandle};
use aldrin_core::message::Message;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use vp::wire;
use vp::{fail, Fail, Res, Src};

pub type ConnResult = Result<(), ConnectionError<PortError>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Life {
    Live,
    /// The client sent `Shutdown` and the connection has read it.
    CleanEnd,
    /// Transport error was reported.
    ErrorEnd,
    Dropped,
    /// The broker removed it (forced, broker shutdown): one `Shutdown` comes and nothing after it.
    Forced,
    /// The broker dropped it because of what it sent.
    Closed,
}

pub struct Conn {
    pub pipe: Rc<RefCell<Pipe>>,
    pub version: u32,
    pub task: usize,
    pub handle: ConnectionHandle,
    pub result: Rc<RefCell<Option<ConnResult>>>,
    pub expected: VecDeque<(u64, u8, Exp)>,
    pub life: Life,
    /// The client side has asked for the end (shutdown queued, error injected).
    pub ending: bool,
    pub got_shutdown: bool,
    pub sent_shutdown: bool,
    /// Serials of calls this client has not seen a reply to.
    pub pending_calls: BTreeSet<u32>,
    pub next_serial: u32,
    /// Frames received by the client (total).
    pub received: u64,
    pub attacker: bool,
}

pub struct SvcInfo {
    pub owner: usize,
    pub id: Id,
}

/// What clients have learned; drives the generators only.
#[derive(Default)]
pub struct Known {
    pub objs: Vec<(usize, Id)>,
    pub svcs: Vec<(usize, Id)>,
    pub chans: Vec<Id>,
    pub lis: Vec<(usize, Id)>,
    /// Calls seen by callees: (callee, serial, live).
    pub calls: Vec<(usize, u32)>,
    pub aborted: Vec<(usize, u32)>,
    /// Introspection queries seen and not answered.
    pub intro: Vec<(usize, u32)>,
}

pub struct World {
    pub exec: Exec,
    pub broker: usize,
    pub broker_done: Rc<RefCell<bool>>,
    pub handle: Option<BrokerHandle>,
    pub log: Log,
    pub conns: Vec<Conn>,
    pub model: Model,
    pub known: Known,
    pub used: BTreeSet<Id>,
    pub trace: Vec<String>,
    pub want_trace: bool,
    /// Many of everything.
    pub wide: bool,
    /// Kinds whose messages decide the property; a mismatch elsewhere ends the case silently.
    pub kinds: &'static [u8],
    /// Restrict the comparison to connections that are not attackers.
    pub victims_only: bool,
    pub diverged: Option<String>,
    pub check_versions: bool,
    pub events: u64,
    ev_no: u64,
    pub matched: BTreeMap<u8, u64>,
    /// Events in the broker's queue.
    pub deferred: bool,
    /// Items sent by the owner of a channel's sending end, handled or not.
    pub items_out: BTreeMap<Sym, u64>,
    pub over: u64,
    pub probes: Vec<Probe>,
    /// A failed probe decides the property.
    pub check_probes: bool,
    pub probed: u64,
    /// Introspection queries and replies that were received.
    pub intro: Vec<(usize, Frame)>,
}

/// What a statistics or snapshot request must and did answer.
pub struct Probe {
    pub snapshot: bool,
    pub want: Option<(Vec<usize>, Vec<String>)>,
    pub got: Rc<RefCell<Option<Result<(Vec<usize>, Vec<String>), String>>>>,
    pub done: bool,
}

pub enum Stop {
    Fail(Fail),
    /// Something outside the property went wrong; nothing is reported.
    Diverged,
}

impl From<Fail> for Stop {
    fn from(f: Fail) -> Self {
        Self::Fail(f)
    }
}

pub fn settle(r: Result<(), Stop>) -> Res {
    match r {
        Ok(()) | Err(Stop::Diverged) => Ok(()),
        Err(Stop::Fail(f)) => Err(f),
    }
}

pub const ALL_KINDS: &[u8] = &{
    let mut a = [0u8; 63];
    let mut i = 0;
    while i < 63 {
        a[i] = i as u8;
        i += 1;
    }
    a
};

pub fn frame(kind: u8, fields: Vec<F>) -> Frame {
    Frame { kind, value: None, fields }
}

pub fn frame_v(kind: u8, fields: Vec<F>, value: Vec<u8>) -> Frame {
    Frame { kind, value: Some(value), fields }
}

pub fn show(f: &Frame) -> String {
    let mut s = f.name().to_string();
    for x in &f.fields {
        match x {
            F::U(v) => s.push_str(&format!(" {v}")),
            F::D(v) => s.push_str(&format!(" #{v}")),
            F::I(v) => s.push_str(&format!(" {}", short(v))),
        }
    }
    if let Some(v) = &f.value {
        s.push_str(&format!(" [{}]", vp::hex(&v[..v.len().min(24)])));
    }
    s
}

pub fn short(v: &Id) -> String {
    format!("{:02x}{:02x}..{:02x}", v[0], v[1], v[15])
}

impl World {
    pub fn new(kinds: &'static [u8], want_trace: bool) -> Self {
        // For developing the model: every mismatch counts.
        let kinds = if std::env::var_os("VP_ALLKINDS").is_some() { ALL_KINDS } else { kinds };
        let broker = Broker::new();
        let handle = broker.handle().clone();
        let done = Rc::new(RefCell::new(false));
        let mut exec = Exec::default();
        let d = done.clone();
        let t = exec.spawn(async move {
            broker.run().await;
            *d.borrow_mut() = true;
        });
        World {
            exec,
            broker: t,
            broker_done: done,
            handle: Some(handle),
            log: Rc::default(),
            conns: Vec::new(),
            model: Model::default(),
            known: Known::default(),
            used: BTreeSet::new(),
            trace: Vec::new(),
            want_trace,
            wide: false,
            kinds,
            victims_only: false,
            diverged: None,
            check_versions: false,
            events: 0,
            ev_no: 0,
            matched: BTreeMap::new(),
            deferred: false,
            items_out: BTreeMap::new(),
            over: 0,
            probes: Vec::new(),
            check_probes: false,
            probed: 0,
            intro: vec![],
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_trace {
            let s = f();
            self.trace.push(s);
        }
    }

    fn relevant(&self, kind: u8) -> bool {
        self.kinds.contains(&kind)
    }

    /// A problem whose report belongs to the property only if `mine`.
    pub fn problem(&mut self, mine: bool, sig: &str, msg: String) -> Stop {
        if mine {
            Stop::Fail(Fail::new(sig, format!("{msg}\n--- history ---\n{}", self.trace.join("\n"))))
        } else {
            self.diverged = Some(msg);
            Stop::Diverged
        }
    }

    // ------------------------------------------------------------------ scheduling

    pub fn queue_len(&self) -> usize {
        self.log.borrow().len()
    }

    pub fn poll_broker(&mut self) -> Result<(), Stop> {
        self.note(|| "poll broker".into());
        let broker = self.broker;
        self.exec.poll(broker);
        if self.deferred {
            return Ok(());
        }
        self.process_log()
    }

    pub fn process_log(&mut self) -> Result<(), Stop> {
        let evs: Vec<Ev> = self.log.borrow_mut().drain(..).collect();
        for ev in evs {
            self.process_event(&ev)?;
        }
        Ok(())
    }

    pub fn process_event(&mut self, ev: &Ev) -> Result<(), Stop> {
        if self.model.over() {
            return Ok(());
        }
        self.events += 1;
        if self.want_trace {
            let s = match ev {
                Ev::Msg(c, f) => format!("  broker: c{c} {}", show(f)),
                e => format!("  broker: {e:?}"),
            };
            self.trace.push(s);
        }
        let alive: Vec<bool> = self.model.conns.iter().map(|c| c.alive).collect();
        let out = self.model.process(ev);
        self.expect(out);
        if let Some(e) = self.model.error.take() {
            let mine = self.relevant(28);
            return Err(self.problem(mine, "channel-credit", e));
        }
        match ev {
            Ev::Force(c) => {
                if alive[*c] && self.conns[*c].life == Life::Live {
                    self.conns[*c].life = Life::Forced;
                }
            }
            Ev::Shutdown => {
                for (c, a) in alive.iter().enumerate() {
                    if *a && self.conns[c].life == Life::Live {
                        self.conns[c].life = Life::Forced;
                    }
                }
            }
            Ev::Probe(i) => {
                let m = &self.model;
                let want = if self.probes[*i].snapshot {
                    let [conns, objs, svcs, chans, lis] = m.counts();
                    let s = m.sizes();
                    vec![conns, objs, objs, svcs, svcs, chans, lis, s[5], s[0], s[1], s[2], s[3], s[4]]
                } else {
                    m.counts().to_vec()
                };
                self.probes[*i].want = Some((want, Vec::new()));
            }
            _ => {}
        }
        for c in std::mem::take(&mut self.model.must_close) {
            if self.conns[c].life == Life::Live {
                self.conns[c].life = Life::Closed;
            }
        }
        Ok(())
    }

    pub fn expect(&mut self, out: Vec<(usize, u8, Exp)>) {
        self.ev_no += 1;
        for (c, phase, e) in out {
            self.conns[c].expected.push_back((self.ev_no, phase, e));
        }
    }

    pub fn poll_conn(&mut self, c: usize) -> Result<(), Stop> {
        self.note(|| format!("poll connection {c}"));
        let t = self.conns[c].task;
        self.exec.poll(t);
        self.sync_life(c);
        if self.deferred {
            return Ok(());
        }
        self.collect(c)
    }

    fn sync_life(&mut self, c: usize) {
        // The end of the connection is visible in the log before the broker handles it.
        let mut life = None;
        for e in self.log.borrow().iter() {
            match e {
                Ev::CleanEnd(x) if *x == c => life = Some(Life::CleanEnd),
                Ev::ErrorEnd(x) if *x == c => life = Some(Life::ErrorEnd),
                _ => {}
            }
        }
        if let Some(l) = life {
            if matches!(self.conns[c].life, Life::Live | Life::Forced) {
                self.conns[c].life = l;
            }
        }
    }

    /// Everything that is ready runs until nothing is; fails if that does not happen.
    pub fn quiesce(&mut self, src: &mut Src) -> Result<(), Stop> {
        for c in &self.conns {
            c.pipe.borrow_mut().set_stalled(false);
        }
        let limit = self.exec.polls + 20_000;
        loop {
            let ready = self.exec.ready();
            if ready.is_empty() {
                break;
            }
            if self.exec.polls > limit {
                return Err(self.problem(true, "no-quiescence", "tasks keep running without new input".into()));
            }
            let t = *src.pick(&ready);
            self.step(t)?;
        }
        if !self.deferred {
            for c in 0..self.conns.len() {
                self.collect(c)?;
            }
        }
        Ok(())
    }

    pub fn step(&mut self, task: usize) -> Result<(), Stop> {
        if task != self.broker && self.queue_len() >= 20 && !self.deferred {
            self.poll_broker()?;
        }
        if task == self.broker {
            self.poll_broker()
        } else if let Some(c) = self.conns.iter().position(|c| c.task == task) {
            self.poll_conn(c)
        } else {
            self.exec.poll(task);
            Ok(())
        }
    }

    // ------------------------------------------------------------------ connections

    /// Connects a raw client of the given minor version.
    pub fn connect(&mut self, version: u32, legacy: bool, value: Vec<u8>) -> Result<Option<usize>, Stop> {
        if self.queue_len() > 0 {
            self.poll_broker()?;
        }
        if self.model.over() {
            return Ok(None);
        }
        let id = self.conns.len();
        let pipe = Rc::new(RefCell::new(Pipe { id, ..Pipe::default() }));
        let hello = if legacy {
            frame_v(0, vec![F::U(version)], value)
        } else {
            let mut m = BTreeMap::new();
            if value != [0] {
                let n = wire::decode_prefix(&value, true).map(|x| x.0).unwrap_or(wire::N::None);
                m.insert(0, wire::N::Some(Box::new(n)));
            }
            let data = wire::encode_canonical(&wire::N::Struct(m), wire::Epoch::V1);
            frame_v(46, vec![F::U(1), F::U(version)], data)
        };
        self.note(|| format!("connect {id} version 1.{version}{}", if legacy { " (legacy)" } else { "" }));
        pipe.borrow_mut().push_frame(hello);
        let port = Port { st: pipe.clone(), log: self.log.clone() };
        let mut handle = self.handle.clone().expect("handle");
        let conn = match now(async move { handle.connect(port).await }) {
            Some(Ok(c)) => c,
            Some(Err(e)) => {
                let e = self.problem(true, "handshake-refused", format!("version 1.{version} is refused: {e:?}"));
                return Err(e);
            }
            None => {
                let e = self.problem(true, "handshake-hangs", "the handshake does not finish".into());
                return Err(e);
            }
        };
        let replies = std::mem::take(&mut pipe.borrow_mut().sent);
        if replies.len() != 1 || !matches!(replies[0].kind, 1 | 47) {
            let e = self.problem(true, "handshake-reply", format!("handshake answered by {replies:?}"));
            return Err(e);
        }
        pipe.borrow_mut().attached = true;
        let ch = conn.handle().clone();
        let result: Rc<RefCell<Option<ConnResult>>> = Rc::default();
        let r = result.clone();
        let task = self.exec.spawn(async move {
            let x = conn.run().await;
            *r.borrow_mut() = Some(x);
        });
        self.conns.push(Conn {
            pipe,
            version: version.min(20),
            task,
            handle: ch,
            result,
            expected: VecDeque::new(),
            life: Life::Live,
            ending: false,
            got_shutdown: false,
            sent_shutdown: false,
            pending_calls: BTreeSet::new(),
            next_serial: 0,
            received: 0,
            attacker: false,
        });
        self.model.conns.push(model::MConn { version: version.min(20), ..Default::default() });
        self.log.borrow_mut().push(Ev::New(id));
        Ok(Some(id))
    }

    pub fn send(&mut self, c: usize, f: Frame) {
        if self.conns[c].ending {
            return;
        }
        self.note(|| format!("client {c} sends {}", show(&f)));
        if matches!(f.kind, 11 | 62) {
            if let F::U(s) = f.fields[0] {
                self.conns[c].pending_calls.insert(s);
            }
        }
        self.conns[c].pipe.borrow_mut().push_frame(f);
    }

    pub fn client_shutdown(&mut self, c: usize) {
        if self.conns[c].sent_shutdown {
            return;
        }
        self.note(|| format!("client {c} sends Shutdown"));
        self.conns[c].ending = true;
        self.conns[c].sent_shutdown = true;
        self.conns[c].pipe.borrow_mut().push_frame(frame(2, vec![]));
    }

    pub fn inject(&mut self, c: usize, how: usize) {
        self.note(|| format!("transport error on {c} ({how})"));
        self.conns[c].ending = true;
        let mut p = self.conns[c].pipe.borrow_mut();
        match how {
            0 => p.push(In::Error),
            1 => {
                p.fail_send = true;
                p.push(In::Error);
            }
            _ => {
                p.fail_flush = true;
                p.push(In::Error);
            }
        }
        p.wake_tx();
    }

    pub fn force(&mut self, c: usize) -> Result<(), Stop> {
        if self.queue_len() >= 20 {
            self.poll_broker()?;
        }
        self.note(|| format!("broker handle shuts connection {c} down"));
        let h = self.conns[c].handle.clone();
        let mut b = self.handle.clone().unwrap();
        let r = now(async move { b.shutdown_connection(&h).await });
        if !matches!(r, Some(Ok(()))) {
            let e = self.problem(true, "handle-blocked", format!("shutdown_connection: {r:?}"));
            return Err(e);
        }
        self.log.borrow_mut().push(Ev::Force(c));
        Ok(())
    }

    pub fn drop_conn(&mut self, c: usize) -> Result<(), Stop> {
        self.note(|| format!("task of connection {c} dropped"));
        // When credit is announced is up to the broker, so when it notices the loss of a sender is
        // not predictable. The broker handle ends such a connection right away.
        let sends = |w: &Self| w.model.chans.values().any(|ch| ch.sender == Some(c));
        if self.queue_len() >= 20 || (sends(self) && self.queue_len() > 0) {
            self.poll_broker()?;
        }
        let t = self.conns[c].task;
        if !self.exec.alive(t) {
            return Ok(());
        }
        self.collect(c)?;
        self.exec.drop_task(t);
        self.conns[c].ending = true;
        if matches!(self.conns[c].life, Life::Live | Life::Forced) {
            self.conns[c].life = Life::Dropped;
        }
        self.model.conns[c].dropped = true;
        self.log.borrow_mut().push(Ev::Dropped(c));
        if sends(self) {
            self.force(c)?;
        }
        Ok(())
    }

    /// Asks for statistics (or a snapshot) at this point of the broker's queue.
    pub fn probe(&mut self, snapshot: bool) -> Result<(), Stop> {
        #[cfg(not(feature = "hooks"))]
        if snapshot {
            return Ok(());
        }
        if self.queue_len() >= 20 {
            self.poll_broker()?;
        }
        let got: Rc<RefCell<Option<Result<(Vec<usize>, Vec<String>), String>>>> = Rc::default();
        let out = got.clone();
        let mut h = self.handle.clone().unwrap();
        let t = self.exec.spawn(async move {
            let r = if snapshot {
                take_snapshot(&mut h).await
            } else {
                match h.take_statistics().await {
                    Ok(s) => Ok((
                        vec![
                            s.num_connections(),
                            s.num_objects(),
                            s.num_services(),
                            s.num_channels(),
                            s.num_bus_listeners(),
                        ],
                        vec![],
                    )),
                    Err(e) => Err(format!("{e:?}")),
                }
            };
            *out.borrow_mut() = Some(r);
        });
        self.exec.poll(t);
        let i = self.probes.len();
        self.probes.push(Probe { snapshot, want: None, got, done: false });
        self.log.borrow_mut().push(Ev::Probe(i));
        self.note(|| format!("probe {i} ({})", if snapshot { "snapshot" } else { "statistics" }));
        Ok(())
    }

    /// Compares what the probes found with the model. Called when nothing is running.
    pub fn compare_probes(&mut self) -> Result<(), Stop> {
        for i in 0..self.probes.len() {
            let p = &mut self.probes[i];
            if p.done {
                continue;
            }
            p.done = true;
            let got = p.got.borrow_mut().take();
            let (snapshot, want) = (p.snapshot, p.want.take());
            let Some(want) = want else {
                if matches!(got, Some(Err(_))) {
                    continue;
                }
                let m = format!("probe {i}: the broker is gone, but the request yields {got:?}");
                return Err(self.problem(true, "probe-after-end", m));
            };
            self.probed += 1;
            if got == Some(Ok(want.clone())) {
                continue;
            }
            let what = if snapshot {
                "[conns, obj_uuids, objs, svc_uuids, svcs, channels, listeners, calls, objects of conns, subscriptions of conns, channel ends of conns, listeners of conns, calls of conns] and dangling references"
            } else {
                "[connections, objects, services, channels, bus listeners]"
            };
            let m = format!("probe {i}: the broker reports {got:?}, expected {want:?} for {what}");
            let sig = if snapshot { "residual-state" } else { "statistics" };
            let mine = self.check_probes;
            return Err(self.problem(mine, sig, m));
        }
        Ok(())
    }

    /// An idle-shutdown or shutdown request at this point of the broker's queue.
    pub fn stop_broker(&mut self, idle: bool) -> Result<(), Stop> {
        if self.queue_len() >= 20 {
            self.poll_broker()?;
        }
        self.note(|| format!("broker handle: {}", if idle { "shutdown_idle" } else { "shutdown" }));
        let mut b = self.handle.clone().unwrap();
        let ok = now(async move {
            if idle {
                b.shutdown_idle().await;
            } else {
                b.shutdown().await;
            }
        });
        if ok.is_none() {
            return Err(self.problem(true, "handle-blocked", "the shutdown request blocks".into()));
        }
        self.log.borrow_mut().push(if idle { Ev::ShutdownIdle } else { Ev::Shutdown });
        Ok(())
    }

    /// Whether the broker must have stopped / must still run.
    pub fn check_broker_alive(&mut self) -> Result<(), Stop> {
        let alive = self.model.conns.iter().filter(|c| c.alive).count();
        let over = self.model.over();
        let done = *self.broker_done.borrow();
        let mine = self.check_probes;
        if over && !done {
            let m = format!("the broker does not stop (shutdown {}, idle {})", self.model.shutdown, self.model.shutdown_idle);
            return Err(self.problem(mine, "broker-does-not-stop", m));
        }
        if done && !over {
            let m = format!("the broker stopped although {alive} connections are registered and nobody asked for a shutdown");
            return Err(self.problem(true, "broker-stopped", m));
        }
        Ok(())
    }

    // ------------------------------------------------------------------ comparison

    pub fn collect(&mut self, c: usize) -> Result<(), Stop> {
        let bad = self.conns[c].pipe.borrow_mut().bad.take();
        if let Some(b) = bad {
            return Err(self.problem(true, "bad-frame", b));
        }
        let frames: Vec<Frame> = std::mem::take(&mut self.conns[c].pipe.borrow_mut().sent);
        for f in frames {
            self.note(|| format!("  -> c{c} {}", show(&f)));
            self.conns[c].received += 1;
            self.learn(c, &f);
            self.received(c, f)?;
        }
        Ok(())
    }

    /// For parts without a model.
    pub fn learn_id(&mut self, c: usize, f: &Frame) {
        self.learn(c, f);
        for x in &f.fields {
            if let F::I(v) = x {
                if !self.model.syms.contains_key(v) {
                    let s = self.model.ids.len();
                    self.model.ids.push(Some(*v));
                    self.model.syms.insert(*v, s);
                }
            }
        }
    }

    fn learn(&mut self, c: usize, f: &Frame) {
        let i = |n: usize| match f.fields[n] {
            F::I(v) => v,
            _ => unreachable!(),
        };
        let d = |n: usize| matches!(f.fields[n], F::D(0));
        let n = |x: usize| match f.fields[x] {
            F::U(v) => v,
            _ => unreachable!(),
        };
        let k = &mut self.known;
        match f.kind {
            4 if d(1) => k.objs.push((c, i(2))),
            8 if d(1) => k.svcs.push((c, i(2))),
            20 => k.chans.push(i(1)),
            34 => k.lis.push((c, i(1))),
            11 | 62 => k.calls.push((c, n(0))),
            48 => k.aborted.push((c, n(0))),
            50 => k.intro.push((c, n(0))),
            12 => {
                self.conns[c].pending_calls.remove(&n(0));
            }
            _ => {}
        }
    }

    fn received(&mut self, c: usize, f: Frame) -> Result<(), Stop> {
        let version = self.conns[c].version;
        let checked = !self.victims_only || !self.conns[c].attacker;
        if min_version(f.kind) > version && f.kind != 2 {
            let mine = self.check_versions && checked;
            return Err(self.problem(
                mine,
                &format!("too-new:{}", f.name()),
                format!("a connection of version 1.{version} is sent {}", show(&f)),
            ));
        }
        let rel = checked && self.relevant(f.kind);
        if self.conns[c].got_shutdown {
            return Err(self.problem(rel, "after-shutdown", format!("connection {c} is sent {} after Shutdown", show(&f))));
        }
        // Introspection is not modelled.
        if matches!(f.kind, 50 | 51) {
            self.intro.push((c, f));
            return Ok(());
        }
        if f.kind == 2 {
            self.conns[c].got_shutdown = true;
            // A connection whose client left first discards what the broker still sends.
            let due = self.conns[c].life != Life::CleanEnd && self.conns[c].expected.iter().any(|(_, _, e)| e.kind == 2);
            if !due {
                match self.conns[c].life {
                    Life::CleanEnd => {
                        self.conns[c].expected.clear();
                        return Ok(());
                    }
                    l => {
                        return Err(self.problem(rel, "shutdown", format!("connection {c} ({l:?}) is sent Shutdown")));
                    }
                }
            }
        }
        // Credit announcements are checked against the ledger only.
        if f.kind == 29 {
            return self.credit_frame(c, &f, rel);
        }
        if f.kind == 2 {
            // Only optional messages may still be outstanding in front of it.
            while let Some((_, _, e)) = self.conns[c].expected.front() {
                if e.kind == 2 {
                    self.conns[c].expected.pop_front();
                    return Ok(());
                }
                if e.optional {
                    self.conns[c].expected.pop_front();
                    continue;
                }
                let e = e.clone();
                let r = checked && (rel || self.relevant(e.kind));
                let m = format!("connection {c} is sent Shutdown but never {}", self.show_exp(&e));
                return Err(self.problem(r, &format!("missing:{}", kind_name(e.kind)), m));
            }
            return Ok(());
        }
        self.match_frame(c, f, rel, checked)
    }

    fn credit_frame(&mut self, c: usize, f: &Frame, rel: bool) -> Result<(), Stop> {
        let (F::I(cookie), F::U(n)) = (&f.fields[0], &f.fields[1]) else { unreachable!() };
        let s = self.model.syms.get(cookie).copied();
        let ok = s.is_some_and(|s| {
            let ch = self.model.chans.get_mut(&s).or(self.model.dead_chans.get_mut(&s));
            ch.is_some_and(|ch| {
                ch.announced += *n as u64;
                ch.sender == Some(c)
            })
        });
        if !ok {
            return Err(self.problem(rel, "credit-stray", format!("connection {c} is sent a stray {}", show(f))));
        }
        self.check_announced(s.unwrap(), rel)?;
        *self.matched.entry(29).or_default() += 1;
        Ok(())
    }

    fn check_announced(&mut self, s: Sym, rel: bool) -> Result<(), Stop> {
        if let Some(ch) = self.model.chans.get(&s) {
            if ch.announced > ch.sent + ch.granted && ch.ends == [model::End::Claimed(ch.sender.unwrap_or(usize::MAX)), ch.ends[1]] && matches!(ch.ends[1], model::End::Claimed(_)) {
                let m = format!("credit for {} items announced, {} granted", ch.announced, ch.sent + ch.granted);
                return Err(self.problem(rel, "credit-excess", m));
            }
        }
        Ok(())
    }

    fn show_exp(&self, e: &Exp) -> String {
        let mut s = kind_name(e.kind).to_string();
        for p in &e.fields {
            match p {
                P::U(v) => s.push_str(&format!(" {v}")),
                P::D(v) => s.push_str(&format!(" #{v}")),
                P::OneOf(v) => s.push_str(&format!(" #{v:?}")),
                P::I(v) => s.push_str(&format!(" {}", short(v))),
                P::Sym(x) => match self.model.ids[*x] {
                    Some(i) => s.push_str(&format!(" {}", short(&i))),
                    None => s.push_str(&format!(" <new id {x}>")),
                },
                P::Serial(x) => s.push_str(&format!(" <serial of call {x}: {:?}>", self.model.serial_of.get(x))),
                P::Credit(_) => s.push_str(" <credit>"),
                P::AnyU => s.push_str(" <any>"),
            }
        }
        match &e.value {
            V::Payload(b, v) => s.push_str(&format!(" [{} from 1.{v}]", vp::hex(&b[..b.len().min(24)]))),
            V::Tree(n) => s.push_str(&format!(" [{n:?}]")),
            _ => {}
        }
        if e.optional {
            s.push_str(" (optional)");
        }
        s
    }

    /// Brings an actual frame into the normal form of the model.
    fn normal(f: &Frame) -> Frame {
        if f.kind == 11 {
            let mut g = f.clone();
            g.kind = 62;
            g.fields.push(F::D(0));
            g
        } else {
            f.clone()
        }
    }

    fn try_match(&self, c: usize, f: &Frame, e: &Exp) -> Result<Vec<(P, F)>, ()> {
        if f.kind != e.kind || f.fields.len() != e.fields.len() {
            return Err(());
        }
        let mut bind = Vec::new();
        for (x, p) in f.fields.iter().zip(&e.fields) {
            let ok = match (p, x) {
                (P::U(a), F::U(b)) => a == b,
                (P::AnyU, F::U(_)) => true,
                (P::D(a), F::D(b)) => a == b,
                (P::OneOf(a), F::D(b)) => a.contains(b),
                (P::I(a), F::I(b)) => a == b,
                (P::Sym(s), F::I(b)) => match self.model.ids[*s] {
                    Some(a) => a == *b,
                    None => {
                        bind.push((p.clone(), x.clone()));
                        true
                    }
                },
                (P::Serial(call), F::U(b)) => match self.model.serial_of.get(call) {
                    Some(a) => a == b,
                    None => {
                        bind.push((p.clone(), x.clone()));
                        true
                    }
                },
                (P::Credit(_), F::U(_)) => {
                    bind.push((p.clone(), x.clone()));
                    true
                }
                _ => false,
            };
            if !ok {
                return Err(());
            }
        }
        let v = self.conns[c].version;
        match (&e.value, &f.value) {
            (V::Any, _) => {}
            (V::None, None) => {}
            (V::None, Some(_)) => {
                if !f.value_ignored() {
                    return Err(());
                }
            }
            (V::Payload(p, from), Some(b)) => {
                if !payload_ok(p, *from, b, v) {
                    return Err(());
                }
            }
            (V::Tree(n), Some(b)) => match wire::decode_prefix(b, true) {
                Ok((m, used)) if used == b.len() && m == *n => {
                    if v < 20 && uses_v2(b) {
                        return Err(());
                    }
                }
                _ => return Err(()),
            },
            _ => return Err(()),
        }
        Ok(bind)
    }

    fn match_frame(&mut self, c: usize, f: Frame, rel: bool, checked: bool) -> Result<(), Stop> {
        let f = Self::normal(&f);
        // Candidates: the first event that still has mandatory messages and everything optional
        // before it.
        let mut i = 0;
        let mut found: Option<(usize, Vec<(P, F)>)> = None;
        let mut limit: Option<(u64, u8)> = None;
        let mut skipped_other = Vec::new();
        while i < self.conns[c].expected.len() {
            let (ev, phase, e) = &self.conns[c].expected[i];
            if limit.is_some_and(|l| l != (*ev, *phase)) {
                break;
            }
            if let Ok(b) = self.try_match(c, &f, e) {
                found = Some((i, b));
                break;
            }
            if !e.optional {
                limit = Some((*ev, *phase));
                skipped_other.push(e.clone());
            }
            i += 1;
        }
        let Some((i, bind)) = found else {
            // Who is to blame? This frame, or one of the messages that should have come.
            let front: Vec<String> = self.conns[c]
                .expected
                .iter()
                .take(6)
                .map(|x| format!("{}/{} {}", x.0, x.1, self.show_exp(&x.2)))
                .collect();
            let later = self.conns[c].expected.iter().any(|(_, _, e)| self.try_match(c, &f, e).is_ok());
            let missing: Vec<Exp> = skipped_other;
            let m = format!("connection {c} (1.{}) is sent {}; expected next: {front:#?}", self.conns[c].version, show(&f));
            if later {
                // Out of order: something before it is missing.
                let mine = checked && missing.iter().any(|e| self.relevant(e.kind));
                let name = missing.first().map_or("?", |e| kind_name(e.kind));
                return Err(self.problem(mine, &format!("missing:{name}"), m));
            }
            return Err(self.problem(rel, &format!("unexpected:{}", f.name()), m));
        };
        let (ev, _, e) = self.conns[c].expected.remove(i).unwrap();
        // The destruction of an object ends its services' lifetimes first.
        if f.kind == 44 && e.fields.iter().nth(1) == Some(&P::D(1)) && e.fields[0] == P::D(0) {
            let obj = e.fields[3].clone();
            let inner = self.conns[c].expected.iter().any(|(x, _, y)| {
                *x == ev && y.kind == 44 && y.fields[0] == P::D(0) && y.fields[1] == P::D(3) && y.fields[3] == obj
            });
            if inner {
                let m = format!("connection {c}: {} before the destruction of its services is reported", show(&f));
                return Err(self.problem(rel, "bus-event-order", m));
            }
        }
        *self.matched.entry(f.kind).or_default() += 1;
        for (p, x) in bind {
            match (p, x) {
                (P::Sym(s), F::I(v)) => {
                    if !self.used.insert(v) {
                        let m = format!("{} uses the cookie {} again", show(&f), short(&v));
                        return Err(self.problem(rel, "cookie-reused", m));
                    }
                    self.model.ids[s] = Some(v);
                    self.model.syms.insert(v, s);
                }
                (P::Serial(call), F::U(v)) => {
                    if let Some(old) = self.model.serials.get(&(c, v)) {
                        if self.model.calls.contains_key(old) {
                            let m = format!("{}: serial is in use by another pending call", show(&f));
                            return Err(self.problem(rel, "serial-reused", m));
                        }
                    }
                    self.model.serials.insert((c, v), call);
                    self.model.serial_of.insert(call, v);
                }
                (P::Credit(s), F::U(v)) => {
                    if let Some(ch) = self.model.chans.get_mut(&s).or(self.model.dead_chans.get_mut(&s)) {
                        ch.announced += v as u64;
                    }
                    self.check_announced(s, rel)?;
                }
                _ => unreachable!(),
            }
        }
        Ok(())
    }

    /// At quiescence nothing may be outstanding.
    pub fn check_quiet(&mut self, src: &mut Src) -> Result<(), Stop> {
        self.quiesce(src)?;
        self.compare_probes()?;
        self.check_broker_alive()?;
        for c in 0..self.conns.len() {
            let checked = !self.victims_only || !self.conns[c].attacker;
            let life = self.conns[c].life;
            if matches!(life, Life::CleanEnd) && !self.conns[c].got_shutdown && self.conns[c].result.borrow().is_none() {
                let rel = checked && self.relevant(2);
                let m = format!("connection {c} was shut down by the client but is not sent Shutdown");
                return Err(self.problem(rel, "missing:Shutdown", m));
            }
            if matches!(life, Life::Live | Life::Forced | Life::Closed) {
                let missing: Vec<Exp> =
                    self.conns[c].expected.iter().filter(|(_, _, e)| !e.optional).map(|(_, _, e)| e.clone()).collect();
                if !missing.is_empty() {
                    let mine = checked && missing.iter().any(|e| self.relevant(e.kind));
                    let first = missing.iter().find(|e| !mine || self.relevant(e.kind)).unwrap().clone();
                    let m = format!("connection {c} ({life:?}) is never sent {}", self.show_exp(&first));
                    return Err(self.problem(mine, &format!("missing:{}", kind_name(first.kind)), m));
                }
                self.conns[c].expected.clear();
                let (unflushed, bad) = {
                    let p = self.conns[c].pipe.borrow();
                    (p.unflushed, p.sent.len())
                };
                if unflushed > 0 || bad > 0 {
                    let m = format!("connection {c}: messages were not flushed to the transport");
                    return Err(self.problem(checked, "unflushed", m));
                }
            }
            let res = self.conns[c].result.borrow().clone();
            match (life, res) {
                (Life::Live, None) | (Life::Dropped, _) => {}
                (Life::Live, Some(r)) => {
                    let m = format!("connection {c} ended with {r:?} without a reason");
                    return Err(self.problem(checked, "connection-ended", m));
                }
                (Life::Closed, None) => {
                    let m = format!("connection {c} is not closed although it must be");
                    let mine = self.check_versions && checked;
                    return Err(self.problem(mine, "not-closed", m));
                }
                (Life::Forced, None) if !self.conns[c].sent_shutdown && !self.conns[c].ending => {}
                (Life::CleanEnd | Life::ErrorEnd | Life::Forced, None) => {
                    let mine = checked && self.relevant(2);
                    let m = format!("connection {c} ({life:?}) is over but its task does not end");
                    return Err(self.problem(mine, "task-does-not-end", m));
                }
                (Life::CleanEnd, Some(Err(e))) => {
                    let p = self.conns[c].pipe.borrow();
                    if !p.fail_send && !p.fail_flush {
                        drop(p);
                        let mine = checked && self.relevant(2);
                        let m = format!("connection {c} was shut down by its client but ended with {e:?}");
                        return Err(self.problem(mine, "clean-end-error", m));
                    }
                }
                _ => {}
            }
        }
        // Credit must not be withheld from a sender that has none.
        let stuck = self.model.chans.iter().find(|(_, ch)| {
            matches!(ch.ends, [model::End::Claimed(a), model::End::Claimed(_)] if self.conns[a].life == Life::Live)
                && ch.granted > 0
                && ch.announced <= ch.sent
        });
        if let Some((s, ch)) = stuck {
            let m = format!("channel {s}: the receiver granted {} more items but the sender has no credit", ch.granted);
            let mine = self.relevant(29);
            return Err(self.problem(mine, "credit-withheld", m));
        }
        Ok(())
    }

    /// Answers a forced shutdown as a well-behaved client does.
    pub fn answer_shutdowns(&mut self) {
        for c in 0..self.conns.len() {
            if self.conns[c].got_shutdown && !self.conns[c].sent_shutdown && !self.conns[c].ending {
                self.client_shutdown(c);
            }
        }
    }

    pub fn live(&self) -> Vec<usize> {
        (0..self.conns.len()).filter(|c| !self.conns[*c].ending && matches!(self.conns[*c].life, Life::Live)).collect()
    }

    pub fn call_handle<T: 'static>(
        &mut self,
        src: &mut Src,
        fut: impl std::future::Future<Output = T> + 'static,
    ) -> Result<T, Stop> {
        let out: Rc<RefCell<Option<T>>> = Rc::default();
        let o = out.clone();
        self.exec.spawn(async move {
            let r = fut.await;
            *o.borrow_mut() = Some(r);
        });
        self.quiesce(src)?;
        let r = out.borrow_mut().take();
        match r {
            Some(r) => Ok(r),
            None => Err(self.problem(true, "handle-hangs", "a broker handle operation does not finish".into())),
        }
    }
}

#[cfg(feature = "hooks")]
async fn take_snapshot(h: &mut BrokerHandle) -> Result<(Vec<usize>, Vec<String>), String> {
    let s = h.verif_snapshot().await.map_err(|e| format!("{e:?}"))?;
    let v = vec![
        s.conns,
        s.obj_uuids,
        s.objs,
        s.svc_uuids,
        s.svcs,
        s.channels,
        s.bus_listeners,
        s.function_calls,
        s.conn_objects,
        s.conn_subscriptions,
        s.conn_channel_ends,
        s.conn_bus_listeners,
        s.conn_calls,
    ];
    Ok((v, s.dangling))
}

#[cfg(not(feature = "hooks"))]
async fn take_snapshot(_: &mut BrokerHandle) -> Result<(Vec<usize>, Vec<String>), String> {
    Err("built without the hook".into())
}

pub fn kind_name(k: u8) -> &'static str {
    crate::msgs::KINDS[k as usize].0
}

pub fn uses_v2(b: &[u8]) -> bool {
    let mut d = wire::Dec::new(b, true);
    d.value(1).is_ok() && d.saw_v2
}

/// Does `b`, sent to a peer of version `to`, mean what `p` from a peer of version `from` means?
pub fn payload_ok(p: &[u8], from: u32, b: &[u8], to: u32) -> bool {
    let convert = from >= 20 && to < 20;
    if p == b && (!convert || !uses_v2(b)) {
        return true;
    }
    let (Ok((x, n)), Ok((y, m))) = (wire::decode_prefix(p, false), wire::decode_prefix(b, false)) else {
        return false;
    };
    n == p.len() && m == b.len() && x == y && !(to < 20 && uses_v2(b))
}

#[allow(dead_code)]
pub fn bad_message(m: Message) -> String {
    frame_of(m).map(|f| show(&f)).unwrap_or_else(|e| e)
}

#[allow(dead_code)]
pub fn unused() -> Res {
    fail!("x", "y")
}
