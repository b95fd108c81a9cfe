//! The ergonomic client API: services from `service!`, typed calls, events and channels.
//!
//! Actors run typed operations; what every call has to yield is a function of a token in its
//! arguments, so that any mix-up shows.
use crate::cli::{Cause, Conf, R, W};
use crate::clients::confs;
use aldrin::core::ServiceUuid;
use aldrin::{Deserialize, Error, Event, Introspectable, PrimaryTag, Promise, RefType, Serialize, Tag};
use aldrin::{Handle, PendingReply, UnboundReceiver, UnboundSender, UnknownCall, UnknownEvent};
use aldrin_core::{ObjectUuid, SerializedValue, ServiceId};
use futures_util::sink::SinkExt;
use futures_util::stream::{FusedStream, StreamExt};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::poll_fn;
use std::rc::Rc;
use std::task::{Poll, Waker};
use uuid::uuid;
use vp::{Ctx, Fail, Res, Src};

#[derive(Debug, Clone, PartialEq, Tag, PrimaryTag, RefType, Serialize, Deserialize, Introspectable)]
#[aldrin(schema = "api", ref_type)]
pub struct Arg {
    #[aldrin(id = 1)]
    pub tok: u64,
    #[aldrin(id = 2, optional)]
    pub text: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Tag, PrimaryTag, RefType, Serialize, Deserialize, Introspectable)]
#[aldrin(schema = "api", ref_type)]
pub enum Out {
    #[aldrin(id = 0)]
    Tok(u64),
    #[aldrin(id = 3)]
    List(Vec<u32>),
}

aldrin::service! {
    #[aldrin(schema = "api", introspection)]
    pub service Full {
        uuid = ServiceUuid(uuid!("00000000-0000-4000-8000-0000000000f1"));
        version = 7;

        fn full @ 1 {
            args = Arg;
            ok = Out;
            err = u32;
        }

        fn plain @ 2;

        fn number @ 3 = u64;

        fn takes @ 4 {
            args = u64;
        }

        fn fails @ 6 {
            args = u64;
            err = String;
        }

        event arg @ 1 = Arg;

        event tick @ 2;

        event text @ 5 = String;

        fn other_fn = UnknownCall;
        event other_ev = UnknownEvent;
    }
}

aldrin::service! {
    #[aldrin(schema = "api", introspection)]
    pub service Bare {
        uuid = ServiceUuid(uuid!("00000000-0000-4000-8000-0000000000f2"));
        version = 4;

        fn full @ 1 {
            args = Arg;
            ok = Out;
            err = u32;
        }

        fn plain @ 2;

        fn number @ 3 = u64;

        fn takes @ 4 {
            args = u64;
        }

        fn fails @ 6 {
            args = u64;
            err = String;
        }

        event arg @ 1 = Arg;

        event tick @ 2;

        event text @ 5 = String;
    }
}

/// How a call is answered; a function of its token.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Plan {
    Ok(u8),
    Err(u8),
    Later,
    Abort,
    Drop,
    BadFn,
    BadArgs,
    /// Waits until the caller has aborted.
    Aborted,
}

fn plan(tok: u64) -> Plan {
    match vp::mix(tok) % 24 {
        n @ 0..=6 => Plan::Ok(n as u8),
        n @ 7..=12 => Plan::Err(n as u8 - 7),
        13..=16 => Plan::Later,
        17 => Plan::Abort,
        18 => Plan::Drop,
        19 => Plan::BadFn,
        20 => Plan::BadArgs,
        _ => Plan::Aborted,
    }
}

fn out(tok: u64) -> Out {
    if tok % 3 == 0 {
        Out::List(vec![tok as u32; (tok % 4) as usize])
    } else {
        Out::Tok(tok ^ 0x5555)
    }
}

fn code(tok: u64) -> u32 {
    (tok as u32).wrapping_mul(7) + 1
}

fn word(tok: u64) -> String {
    format!("no {tok}")
}

fn arg(tok: u64) -> Arg {
    Arg { tok, text: (tok % 2 == 0).then(|| format!("text {tok}")) }
}

#[derive(Clone, PartialEq, Debug)]
enum Want {
    Ok,
    Err,
    Aborted,
    BadFn,
    BadArgs,
}

fn want(tok: u64, can_fail: bool) -> Want {
    match plan(tok) {
        Plan::Ok(_) | Plan::Later => Want::Ok,
        Plan::Err(_) if can_fail => Want::Err,
        Plan::Err(_) => Want::Ok,
        Plan::Abort | Plan::Drop | Plan::Aborted => Want::Aborted,
        Plan::BadFn => Want::BadFn,
        Plan::BadArgs => Want::BadArgs,
    }
}

type Late = Box<dyn FnOnce() -> Result<(), Error>>;

#[derive(Clone, Debug, PartialEq)]
enum Emit {
    Arg(u64, u8),
    Tick,
    Text(u64, u8),
    /// An event the schema does not have.
    Other(u32, u64),
    /// A known event with a payload of another type.
    Wrong(u32, u64),
}

impl Emit {
    fn id(&self) -> u32 {
        match self {
            Emit::Arg(..) => 1,
            Emit::Tick => 2,
            Emit::Text(..) => 5,
            Emit::Other(id, _) | Emit::Wrong(id, _) => *id,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Arg(Arg),
    Tick,
    Text(String),
    Other(u32, u64),
    Invalid(u32),
}

#[derive(Default)]
struct Cmds {
    emits: VecDeque<Emit>,
    stop: bool,
    waker: Option<Waker>,
}

impl Cmds {
    fn wake(&mut self) {
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}

/// A value handed from one actor to another.
struct Cell<T>(Rc<RefCell<(Option<Option<T>>, Option<Waker>)>>);

impl<T> Clone for Cell<T> {
    fn clone(&self) -> Self {
        Cell(self.0.clone())
    }
}

impl<T> Cell<T> {
    fn new() -> Self {
        Cell(Rc::new(RefCell::new((None, None))))
    }
    fn put(&self, v: Option<T>) {
        let mut s = self.0.borrow_mut();
        s.0 = Some(v);
        if let Some(w) = s.1.take() {
            w.wake();
        }
    }
    async fn get(&self) -> Option<T> {
        poll_fn(|cx| {
            let mut s = self.0.borrow_mut();
            match s.0.take() {
                Some(v) => Poll::Ready(v),
                None => {
                    s.1 = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
}

/// Puts nothing when its actor ends without having put something.
struct Guard<T>(Cell<T>, bool);

impl<T> Guard<T> {
    fn put(mut self, v: T) {
        self.1 = true;
        self.0.put(Some(v));
    }
}

impl<T> Drop for Guard<T> {
    fn drop(&mut self) {
        if !self.1 {
            self.0.put(None);
        }
    }
}

struct Sub {
    phases: [Vec<u32>; 2],
    ready: bool,
    stop: Rc<RefCell<Cmds>>,
    got: Vec<Got>,
    ended: bool,
    full: bool,
    /// Nobody tells it that the service has ended.
    deaf: bool,
    /// Receives everything, with `subscribe_all` of the low-level proxy.
    wild: [bool; 2],
}

#[derive(Default)]
struct Sh {
    /// Name, client, done.
    actors: Vec<(String, usize, bool, bool)>,
    late: Vec<Late>,
    aborts: Vec<Box<dyn FnOnce()>>,
    subs: Vec<Sub>,
    /// Numbers given out, per service.
    given: BTreeMap<u64, bool>,
    next: u64,
    calls: u64,
    replies: u64,
    introspections: u64,
    events: u64,
    items: u64,
    /// The service was or is being destroyed.
    gone: bool,
    lenient: bool,
    /// The ids of the services.
    ids: [Option<ServiceId>; 2],
}

type Shared = Rc<RefCell<Sh>>;

fn bad<T>(sig: &str, m: String) -> R<T> {
    Err(Fail::new(format!("api-{sig}"), m))
}

/// Whether an error is explained by somebody having stopped.
fn excused(sh: &Shared, e: &Error) -> bool {
    let s = sh.borrow();
    s.lenient
        && matches!(
            e,
            Error::Shutdown
                | Error::InvalidService
                | Error::InvalidObject
                | Error::InvalidChannel
                | Error::CallAborted
                | Error::DuplicateObject
        )
}

struct A<'a> {
    w: &'a mut W,
    sh: Shared,
}

impl A<'_> {
    /// `ends`: the actor ends by itself before anything is stopped.
    fn spawn<F>(&mut self, name: String, client: usize, ends: bool, fut: F)
    where
        F: std::future::Future<Output = R> + 'static,
    {
        let i = {
            let mut s = self.sh.borrow_mut();
            s.actors.push((name.clone(), client, false, ends));
            s.actors.len() - 1
        };
        let (st, sh) = (self.w.st.clone(), self.sh.clone());
        st.borrow_mut().note(|| format!("actor {i} of client {client}: {name}"));
        self.w.exec.spawn(async move {
            let r = fut.await;
            sh.borrow_mut().actors[i].2 = true;
            let mut st = st.borrow_mut();
            st.note(|| format!("actor {i} ({name}): ended"));
            if let Err(f) = r {
                st.set_fail(Fail::new(f.sig, format!("actor {i} of client {client}, {name}: {}", f.msg)));
            }
        });
    }

    /// Everything runs as far as it can.
    fn quiesce(&mut self, src: &mut Src) -> R {
        loop {
            self.w.drain(src)?;
            let mut s = self.sh.borrow_mut();
            if let Some(f) = s.aborts.pop() {
                drop(s);
                f();
                continue;
            }
            let n = s.late.len();
            if n == 0 {
                return Ok(());
            }
            let f = s.late.swap_remove(src.us(n));
            drop(s);
            self.late(f)?;
        }
    }

    fn late(&mut self, f: Late) -> R {
        if let Err(e) = f() {
            if e != Error::Shutdown || !self.sh.borrow().lenient {
                return bad("answer", format!("answering a call late: {e:?}"));
            }
        }
        Ok(())
    }

    /// `all`: everything is stopped.
    fn hung(&self, all: bool) -> R {
        let gone = self.sh.borrow().gone;
        for (i, (name, c, done, ends)) in self.sh.borrow().actors.iter().enumerate() {
            // The owner of a destroyed service does not hear about aborted calls any more.
            let ends = *ends && (name != "aborted" || !gone);
            // With a client that stops others may wait for ever, but nothing waits on a stopped one.
            let lenient = self.sh.borrow().lenient;
            let stopped = self.w.st.borrow().cls.get(*c).is_some_and(|c| c.run.is_some());
            if !done && (all || stopped || ends && !lenient) {
                let k = name.split(' ').next().unwrap_or("");
                return bad(&format!("hang-{k}"), format!("actor {i} of client {c} ({name}) never ends"));
            }
        }
        Ok(())
    }
}

fn note_late(sh: &Shared, f: Late) {
    sh.borrow_mut().late.push(f);
}

macro_rules! answer {
    // A promise with both kinds of results.
    ($sh:expr, $tok:expr, $p:expr, ok $ok:expr, err $err:expr) => {{
        let tok = $tok;
        match plan(tok) {
            Plan::Ok(0 | 4) => $p.ok_val($ok),
            Plan::Ok(1) => $p.ok_ref(&$ok),
            Plan::Ok(2) => $p.set_val(Ok($ok)),
            Plan::Ok(3) => $p.set_ref(Ok(&$ok)),
            Plan::Ok(5) => $p.into_low_level().ok($ok),
            Plan::Ok(_) => $p.ok($ok),
            Plan::Err(0) => $p.err_val($err),
            Plan::Err(1) => $p.err_ref(&$err),
            Plan::Err(2) => $p.set_val(Err($err)),
            Plan::Err(3) => $p.set_ref(Err(&$err)),
            Plan::Err(4) => $p.into_low_level().err($err),
            Plan::Err(_) => $p.err($err),
            _ => answer!($sh, tok, $p, $p.ok_val($ok)),
        }
    }};
    // Everything else.
    ($sh:expr, $tok:expr, $p:expr, $ok:expr) => {{
        match plan($tok) {
            Plan::Later => {
                note_late(&$sh, Box::new(move || $ok));
                Ok(())
            }
            Plan::Abort => $p.abort(),
            Plan::Drop => {
                drop($p);
                Ok(())
            }
            Plan::BadFn => $p.invalid_function(),
            Plan::BadArgs => $p.invalid_args(),
            _ => $ok,
        }
    }};
}

/// Checks what a call says about itself.
macro_rules! meta {
    ($c:expr, $id:expr, $svc:expr, $version:expr) => {{
        let v = $c.version();
        if $c.id() != $id || $c.service() != $svc || v.is_some_and(|v| v != $version) {
            return bad("call-meta", format!("a call of function {} has id {}, version {v:?}", $id, $c.id()));
        }
    }};
}

/// What the server does with calls, by service; the two services differ in their fallbacks.
macro_rules! server {
    ($name:ident, $svc:ident, $call:ident, $handler:ident, $hstruct:ident, $full:expr $(, $fallback:ident)?) => {
        #[derive(Default)]
        struct $hstruct {
            full: Vec<(Arg, Promise<Out, u32>)>,
            plain: Vec<Promise<(), std::convert::Infallible>>,
            number: Vec<Promise<u64, std::convert::Infallible>>,
            takes: Vec<(u64, Promise<(), std::convert::Infallible>)>,
            fails: Vec<(u64, Promise<(), String>)>,
            other: Vec<UnknownCall>,
            invalid: Vec<Error>,
        }

        #[aldrin::private::async_trait::async_trait]
        impl $handler for $hstruct {
            type Error = Error;
            async fn full(&mut self, args: Arg, promise: Promise<Out, u32>) -> Result<(), Error> {
                self.full.push((args, promise));
                Ok(())
            }
            async fn plain(&mut self, promise: Promise<(), std::convert::Infallible>) -> Result<(), Error> {
                self.plain.push(promise);
                Ok(())
            }
            async fn number(&mut self, promise: Promise<u64, std::convert::Infallible>) -> Result<(), Error> {
                self.number.push(promise);
                Ok(())
            }
            async fn takes(&mut self, args: u64, promise: Promise<(), std::convert::Infallible>) -> Result<(), Error> {
                self.takes.push((args, promise));
                Ok(())
            }
            async fn fails(&mut self, args: u64, promise: Promise<(), String>) -> Result<(), Error> {
                self.fails.push((args, promise));
                Ok(())
            }
            $(async fn $fallback(&mut self, call: UnknownCall) -> Result<(), Error> {
                self.other.push(call);
                Ok(())
            })?
            async fn invalid_call(&mut self, e: Error) -> Result<(), Error> {
                self.invalid.push(e);
                Ok(())
            }
        }

        async fn $name(sh: Shared, mut svc: $svc, cmds: Rc<RefCell<Cmds>>, aborts: bool, mut s: u64) -> R {
            let id = svc.id();
            if id.uuid != $svc::UUID || svc.version() != $svc::VERSION {
                return bad("service-meta", format!("the service says it is {id:?}, version {}", svc.version()));
            }
            loop {
                let call = poll_fn(|cx| {
                    let mut c = cmds.borrow_mut();
                    while let Some(e) = c.emits.pop_front() {
                        let r = match e {
                            Emit::Arg(t, 0) => svc.arg(arg(t)),
                            Emit::Arg(t, 1) => svc.arg_val(arg(t)),
                            Emit::Arg(t, _) => svc.arg_ref(&arg(t)),
                            Emit::Tick => svc.tick(),
                            Emit::Text(t, 0) => svc.text(word(t).as_str()),
                            Emit::Text(t, 1) => svc.text_val(word(t)),
                            Emit::Text(t, _) => svc.text_ref(&word(t)),
                            Emit::Other(id, t) => svc.inner().emit(id, t),
                            Emit::Wrong(id, t) => svc.inner().emit(id, vec![t]),
                        };
                        if let Err(e) = r {
                            if !excused(&sh, &e) {
                                return Poll::Ready(Err(e));
                            }
                        }
                    }
                    c.waker = Some(cx.waker().clone());
                    if c.stop {
                        return Poll::Ready(Ok(None));
                    }
                    drop(c);
                    svc.poll_next_call(cx).map(Ok)
                })
                .await;
                let call = match call {
                    Ok(Some(c)) => c,
                    Ok(None) => break,
                    Err(e) => return bad("emit", format!("emitting an event: {e:?}")),
                };
                let mut hs = $hstruct::default();
                s = vp::mix(s);
                if s % 3 == 0 {
                    if let Err(e) = $svc::dispatch_call(call, &mut hs).await {
                        return bad("dispatch", format!("dispatching a call: {e:?}"));
                    }
                } else {
                    if let Ok(c) = &call {
                        if c.service() != id || c.version().is_some_and(|v| v != $svc::VERSION && v != 99) {
                            return bad("call-meta", format!("{c:?} in service {id:?}"));
                        }
                    }
                    match call {
                        Ok($call::Full(c)) => {
                            meta!(c, 1, id, $svc::VERSION);
                            hs.full.push(c.into_args_and_promise());
                        }
                        Ok($call::Plain(c)) => {
                            meta!(c, 2, id, $svc::VERSION);
                            hs.plain.push(c.into_args_and_promise().1);
                        }
                        Ok($call::Number(c)) => {
                            meta!(c, 3, id, $svc::VERSION);
                            hs.number.push(c.into_args_and_promise().1);
                        }
                        Ok($call::Takes(c)) => {
                            meta!(c, 4, id, $svc::VERSION);
                            if s % 2 == 0 {
                                hs.takes.push(c.into_args_and_promise());
                            } else {
                                // Answered through the call itself.
                                let tok = *c.args();
                                let r = match plan(tok) {
                                    Plan::Abort => c.abort(),
                                    Plan::BadFn => c.invalid_function(),
                                    Plan::BadArgs => c.invalid_args(),
                                    Plan::Drop => { drop(c); Ok(()) }
                                    Plan::Later => { note_late(&sh, Box::new(move || c.ok_ref(&()))); Ok(()) }
                                    Plan::Aborted => { let p = c.into_args_and_promise(); hs.takes.push(p); Ok(()) }
                                    _ => c.done(),
                                };
                                if let Err(e) = r {
                                    if !excused(&sh, &e) { return bad("answer", format!("answering a call: {e:?}")); }
                                }
                            }
                        }
                        Ok($call::Fails(c)) => {
                            meta!(c, 6, id, $svc::VERSION);
                            if s % 2 == 0 {
                                hs.fails.push(c.into_args_and_promise());
                            } else {
                                let tok = *c.args();
                                let r = match plan(tok) {
                                    Plan::Ok(0) => c.ok(()),
                                    Plan::Ok(1) => c.ok_val(()),
                                    Plan::Ok(2) => c.set(Ok::<(), String>(())),
                                    Plan::Ok(_) => c.set_val(Ok(())),
                                    Plan::Err(0) => c.err(word(tok).as_str()),
                                    Plan::Err(1) => c.err_val(word(tok)),
                                    Plan::Err(2) => c.err_ref(&word(tok)),
                                    Plan::Err(3) => c.set(Err::<(), &str>(&word(tok))),
                                    Plan::Err(4) => c.set_ref(Err(&word(tok))),
                                    Plan::Err(_) => c.set_val(Err(word(tok))),
                                    _ => { hs.fails.push(c.into_args_and_promise()); Ok(()) }
                                };
                                if let Err(e) = r {
                                    if !excused(&sh, &e) { return bad("answer", format!("answering a call: {e:?}")); }
                                }
                            }
                        }
                        $(Ok($call::OtherFn(c)) => { let _ = stringify!($fallback); hs.other.push(c) })?
                        Err(e) => hs.invalid.push(e),
                    }
                }
                let $hstruct { full, plain, number, takes, fails, other, invalid } = hs;
                let mut rs = Vec::new();
                for (a, mut p) in full {
                    if a != arg(a.tok) {
                        return bad("call-args", format!("arguments arrived as {a:?}"));
                    }
                    rs.push(if plan(a.tok) == Plan::Aborted {
                        if aborts { wait_aborted(&sh, async move { p.aborted().await; p.is_aborted() }) } else { p.abort() }
                    } else {
                        answer!(sh, a.tok, p, ok out(a.tok), err code(a.tok))
                    });
                }
                for (a, mut p) in fails {
                    rs.push(if plan(a) == Plan::Aborted {
                        if aborts { wait_aborted(&sh, async move { p.aborted().await; p.is_aborted() }) } else { p.abort() }
                    } else {
                        answer!(sh, a, p, ok (), err word(a))
                    });
                }
                for (a, mut p) in takes {
                    rs.push(if plan(a) == Plan::Aborted {
                        if aborts { wait_aborted(&sh, async move { poll_fn(|cx| p.poll_aborted(cx)).await; p.is_aborted() }) } else { p.abort() }
                    } else {
                        answer!(sh, a, p, p.done())
                    });
                }
                for p in plain {
                    rs.push(p.done());
                }
                for p in number {
                    let n = {
                        let mut s = sh.borrow_mut();
                        s.next += 1;
                        let n = s.next;
                        s.given.insert(n, false);
                        n
                    };
                    rs.push(p.ok_val(n));
                }
                for c in other {
                    if !$full || c.service() != id {
                        return bad("fallback", format!("{c:?}"));
                    }
                    rs.push(unknown(&sh, c)?);
                }
                for e in invalid {
                    match e {
                        Error::InvalidFunction(e) if !$full && ![1, 2, 3, 4, 6].contains(&e.id()) => {}
                        Error::InvalidArguments(e) if [1, 2, 3, 4, 6].contains(&e.id()) => {}
                        e => return bad("invalid-call", format!("{e:?}")),
                    }
                }
                for r in rs {
                    if let Err(e) = r {
                        if !excused(&sh, &e) {
                            return bad("answer", format!("answering a call: {e:?}"));
                        }
                    }
                }
            }
            let s = sh.borrow();
            if !s.gone && !s.lenient && !cmds.borrow().stop {
                return bad("service-ended", "next_call has ended and nobody destroyed the service".into());
            }
            Ok(())
        }
    };
}

thread_local! {
    static WAITING: RefCell<Vec<std::pin::Pin<Box<dyn std::future::Future<Output = bool>>>>> = const { RefCell::new(Vec::new()) };
}

fn wait_aborted(_sh: &Shared, f: impl std::future::Future<Output = bool> + 'static) -> Result<(), Error> {
    WAITING.with(|w| w.borrow_mut().push(Box::pin(f)));
    Ok(())
}

/// A call of a function the schema does not have.
fn unknown(_sh: &Shared, mut c: UnknownCall) -> R<Result<(), Error>> {
    let id = c.id();
    if [1, 2, 3, 4, 6].contains(&id) {
        return bad("fallback", format!("function {id} is not unknown"));
    }
    let tok: u64 = match c.deserialize() {
        Ok(t) => t,
        Err(e) => return bad("fallback", format!("arguments do not decode: {e:?}")),
    };
    match c.deserialize_as_value() {
        Ok(aldrin_core::Value::U64(t)) if t == tok => {}
        v => return bad("fallback", format!("arguments decode to {v:?} and {tok}")),
    }
    if c.version().is_some_and(|v| v != 99) {
        return bad("fallback", format!("version {:?}", c.version()));
    }
    Ok(match plan(tok) {
        Plan::Ok(0) => c.done(),
        Plan::Ok(1) => c.ok(()),
        Plan::Ok(2) => c.set(Ok::<(), u32>(())),
        Plan::Ok(3) => match c.deserialize_and_cast::<u64, (), u32>() {
            Ok(c) if *c.args() == tok => c.done(),
            Ok(c) => return bad("fallback", format!("arguments decode to {} and {tok}", c.args())),
            Err(e) => return bad("fallback", format!("arguments do not decode: {e:?}")),
        },
        Plan::Ok(4) => {
            let (a, p) = c.into_args_and_promise();
            if a.deserialize::<u64>() != Ok(tok) {
                return bad("fallback", format!("arguments {a:?}"));
            }
            p.done()
        }
        Plan::Ok(_) => c.into_promise().cast::<(), u32>().done(),
        Plan::Err(0) => c.err(code(tok)),
        Plan::Err(1) => c.set(Err::<(), u32>(code(tok))),
        Plan::Err(2) => {
            let a = c.take_args();
            if a.deserialize::<u64>() != Ok(tok) {
                return bad("fallback", format!("arguments {a:?}"));
            }
            c.into_low_level().err(code(tok))
        }
        Plan::Err(_) => c.into_promise().err(code(tok)),
        Plan::Later => {
            _sh.borrow_mut().late.push(Box::new(move || c.done()));
            Ok(())
        }
        Plan::Abort | Plan::Aborted => c.abort(),
        // Dropping one says that there is no such function.
        Plan::Drop => {
            drop(c);
            Ok(())
        }
        Plan::BadFn => c.invalid_function(),
        Plan::BadArgs => match c.deserialize_and_cast::<String, (), u32>() {
            Err(Error::InvalidArguments(e)) if e.id() == id => Ok(()),
            r => return bad("fallback", format!("decoding {tok} as a string: {r:?}")),
        },
    })
}

server!(serve_full, Full, FullCall, FullCallHandler, FullH, true, other_fn);
server!(serve_bare, Bare, BareCall, BareCallHandler, BareH, false);

/// Awaits a reply in one of several ways.
async fn await_reply<T, E>(sh: &Shared, id: u32, version: u32, mut p: PendingReply<T, E>, how: u64) -> R<Option<Result<Result<T, E>, Error>>>
where
    T: aldrin_core::tags::PrimaryTag + Deserialize2<T> + 'static,
    E: aldrin_core::tags::PrimaryTag + Deserialize2<E> + 'static,
{
    if p.id() != id || p.version() != Some(version) {
        return bad("pending-meta", format!("a call of {id} is pending as {}, {:?}", p.id(), p.version()));
    }
    sh.borrow_mut().calls += 1;
    let r = match how % 8 {
        0 => poll_fn(|cx| p.poll_reply_as::<T, E>(cx)).await,
        1 => match p.into_low_level().await {
            Ok(r) => match r.deserialize_and_cast() {
                Ok(r) => Ok(r),
                Err(e) => return bad("reply", format!("does not decode: {e:?}")),
            },
            Err(e) => Err(e),
        },
        2 => p.cast::<T, E>().await,
        _ => p.await,
    };
    sh.borrow_mut().replies += 1;
    Ok(Some(match r {
        Ok(r) => {
            if r.id() != id {
                return bad("reply-meta", format!("the reply to a call of {id} has id {}", r.id()));
            }
            Ok(r.into_args())
        }
        Err(e) => Err(e),
    }))
}

/// Shorthand for what `DeserializePrimary` amounts to.
trait Deserialize2<T>: aldrin_core::DeserializePrimary {}
impl<T: aldrin_core::DeserializePrimary> Deserialize2<T> for T {}

fn judge<T: std::fmt::Debug + PartialEq, E: std::fmt::Debug + PartialEq>(
    sh: &Shared,
    fun: &str,
    tok: u64,
    w: Want,
    ok: T,
    err: Option<E>,
    got: Result<Result<T, E>, Error>,
) -> R {
    let (gone, lenient) = (sh.borrow().gone, sh.borrow().lenient);
    let m = |g: String| format!("{fun}({tok}), answered with {:?}, yields {g}; expected {w:?}", plan(tok));
    match (got, &w) {
        (Ok(Ok(v)), Want::Ok) if v == ok => Ok(()),
        (Ok(Err(v)), Want::Err) if Some(&v) == err.as_ref() => Ok(()),
        (Ok(v), _) => bad("result", m(format!("{v:?}"))),
        (Err(Error::CallAborted), Want::Aborted) => Ok(()),
        (Err(Error::InvalidFunction(_)), Want::BadFn) => Ok(()),
        (Err(Error::InvalidArguments(_)), Want::BadArgs) => Ok(()),
        (Err(Error::InvalidService), _) if gone || lenient => Ok(()),
        (Err(e), _) if lenient && excused(sh, &e) => Ok(()),
        (Err(e), _) => bad("result", m(format!("{e:?}"))),
    }
}

macro_rules! caller {
    ($name:ident, $proxy:ident, $full:expr) => {
        async fn $name(sh: Shared, p: Rc<$proxy>, fun: u64, tok: u64, how: u64, given_up: bool) -> R {
            let v = $proxy::VERSION;
            // The caller gives up on it.
            macro_rules! give_up {
                ($r:expr) => {{
                    let r = $r;
                    sh.borrow_mut().calls += 1;
                    let f: Box<dyn FnOnce()> = if how % 2 == 0 { Box::new(move || r.abort()) } else { Box::new(move || drop(r)) };
                    if how % 3 == 0 {
                        f();
                    } else {
                        sh.borrow_mut().aborts.push(f);
                    }
                    return Ok(());
                }};
            }
            match fun {
                0 | 1 => {
                    let a = arg(tok);
                    let r = match how % 5 {
                        0 => p.full(a),
                        1 => p.full(ArgRef { tok: &a.tok, text: a.text.as_ref() }),
                        2 => p.full_ref(&a),
                        3 => p.full(&a),
                        _ => p.full_val(a),
                    };
                    if given_up || plan(tok) == Plan::Aborted {
                        give_up!(r);
                    }
                    let Some(got) = await_reply(&sh, 1, v, r, how >> 8).await? else { return Ok(()) };
                    judge(&sh, "full", tok, want(tok, true), out(tok), Some(code(tok)), got)
                }
                2 => {
                    let r = p.plain();
                    if given_up {
                        give_up!(r);
                    }
                    match r.await {
                        Ok(r) => {
                            sh.borrow_mut().replies += 1;
                            if r.id() != 2 {
                                return bad("reply-meta", format!("id {}", r.id()));
                            }
                            match r.into_args() {
                                Ok(()) => Ok(()),
                                Err(e) => match e {},
                            }
                        }
                        Err(e) => judge::<(), ()>(&sh, "plain", 0, Want::Ok, (), None, Err(e)),
                    }
                }
                3 => {
                    let r = p.number();
                    if given_up {
                        give_up!(r);
                    }
                    match r.await {
                        Ok(r) => {
                            let n = match r.into_args() {
                                Ok(n) => n,
                                Err(e) => match e {},
                            };
                            let mut s = sh.borrow_mut();
                            s.replies += 1;
                            match s.given.insert(n, true) {
                                Some(false) => Ok(()),
                                x => bad("number", format!("a call yields {n}, which was {}", if x.is_some() { "returned to another" } else { "never answered" })),
                            }
                        }
                        Err(e) => judge::<(), ()>(&sh, "number", 0, Want::Ok, (), None, Err(e)),
                    }
                }
                4 => {
                    let r = match how % 3 {
                        0 => p.takes(tok),
                        1 => p.takes_ref(&tok),
                        _ => p.takes_val(tok),
                    };
                    if given_up || plan(tok) == Plan::Aborted {
                        give_up!(r);
                    }
                    let got = match r.await {
                        Ok(r) => match r.into_args() {
                            Ok(()) => Ok(Ok(())),
                            Err(e) => match e {},
                        },
                        Err(e) => Err(e),
                    };
                    sh.borrow_mut().replies += 1;
                    judge::<(), ()>(&sh, "takes", tok, want(tok, false), (), None, got)
                }
                5 => {
                    let r = match how % 3 {
                        0 => p.fails(tok),
                        1 => p.fails_ref(&tok),
                        _ => p.fails_val(tok),
                    };
                    if given_up || plan(tok) == Plan::Aborted {
                        give_up!(r);
                    }
                    let Some(got) = await_reply(&sh, 6, v, r, how >> 8).await? else { return Ok(()) };
                    judge(&sh, "fails", tok, want(tok, true), (), Some(word(tok)), got)
                }
                // A function the schema does not have.
                6 => {
                    let id = [0, 5, 7, 1000, u32::MAX][(how % 5) as usize];
                    let version = if how % 2 == 0 { None } else { Some(99) };
                    let r = p.inner().call(id, tok, version).cast::<(), u32>();
                    if given_up {
                        give_up!(r);
                    }
                    sh.borrow_mut().calls += 1;
                    let got = r.await.map(|r| r.into_args());
                    sh.borrow_mut().replies += 1;
                    let w = match plan(tok) {
                        _ if !$full => Want::BadFn,
                        Plan::Drop => Want::BadFn,
                        _ => want(tok, true),
                    };
                    judge(&sh, "an unknown function", tok, w, (), Some(code(tok)), got)
                }
                // Arguments of another type.
                7 => {
                    let id = [1, 2, 3, 4, 6][(how % 5) as usize];
                    let r = match how % 3 {
                        0 => p.inner().call(id, "text", Some(v)),
                        1 => p.inner().call(id, vec![tok], Some(v)),
                        _ => p.inner().call(id, 1.5f64, Some(v)),
                    };
                    let r = r.cast::<(), ()>();
                    if given_up {
                        give_up!(r);
                    }
                    let got = r.await.map(|r| r.into_args());
                    judge(&sh, "wrong arguments", tok, Want::BadArgs, (), Some(()), got)
                }
                // A reply read as another type.
                _ => {
                    let t = (tok..).find(|t| matches!(plan(*t), Plan::Ok(_))).unwrap();
                    let r = p.full_val(arg(t)).cast::<String, u32>();
                    match r.await {
                        Err(Error::InvalidReply(_)) => Ok(()),
                        Err(Error::InvalidService) if sh.borrow().gone => Ok(()),
                        Err(e) if excused(&sh, &e) => Ok(()),
                        r => bad("reply-type", format!("a reply of another type yields {r:?}")),
                    }
                }
            }
        }
    };
}

caller!(call_full, FullProxy, true);
caller!(call_bare, BareProxy, false);

macro_rules! subscriber {
    ($name:ident, $proxy:ident, $event:ident, $handler:ident, $hstruct:ident $(, $fallback:ident)?) => {
        #[derive(Default)]
        struct $hstruct(Vec<Got>);

        #[aldrin::private::async_trait::async_trait]
        impl $handler for $hstruct {
            type Error = Error;
            async fn arg(&mut self, e: Event<Arg>) -> Result<(), Error> {
                self.0.push(Got::Arg(e.into_args()));
                Ok(())
            }
            async fn tick(&mut self, _: Event<()>) -> Result<(), Error> {
                self.0.push(Got::Tick);
                Ok(())
            }
            async fn text(&mut self, e: Event<String>) -> Result<(), Error> {
                self.0.push(Got::Text(e.into_args()));
                Ok(())
            }
            $(async fn $fallback(&mut self, e: UnknownEvent) -> Result<(), Error> {
                self.0.push(Got::Other(e.id(), e.deserialize().unwrap_or(0)));
                Ok(())
            })?
            async fn invalid_event(&mut self, e: Error) -> Result<(), Error> {
                let Error::InvalidArguments(e) = e else { return Err(e) };
                self.0.push(Got::Invalid(e.id()));
                Ok(())
            }
        }

        async fn $name(sh: Shared, mut p: $proxy, k: usize, mut s: u64) -> R {
            let svc = p.id();
            for phase in 0..2 {
                let (ids, wild) = {
                    let s = sh.borrow();
                    (s.subs[k].phases[phase].clone(), s.subs[k].wild[phase])
                };
                let mut err = None;
                if wild {
                    err = p.inner().subscribe_all().await.err();
                } else if ids == [1, 2, 5] && s % 2 == 0 {
                    err = p.subscribe_all().await.err();
                } else {
                    for i in &ids {
                        let r = match i {
                            1 => p.subscribe_arg().await,
                            2 => p.subscribe_tick().await,
                            5 => p.subscribe_text().await,
                            _ => p.inner().subscribe(*i).await,
                        };
                        err = err.or(r.err());
                    }
                }
                if let Some(e) = err {
                    if !excused(&sh, &e) && !(sh.borrow().gone && e == Error::InvalidService) {
                        return bad("subscribe", format!("subscribing to {ids:?}: {e:?}"));
                    }
                }
                let cmds = sh.borrow().subs[k].stop.clone();
                sh.borrow_mut().subs[k].ready = true;
                let ended = loop {
                    let e = poll_fn(|cx| {
                        let mut c = cmds.borrow_mut();
                        c.waker = Some(cx.waker().clone());
                        if std::mem::take(&mut c.stop) {
                            return Poll::Ready(None);
                        }
                        p.poll_next_event(cx).map(Some)
                    })
                    .await;
                    let e = match e {
                        None => break false,
                        Some(None) => break true,
                        Some(Some(e)) => e,
                    };
                    s = vp::mix(s);
                    if let Ok(e) = &e {
                        if e.service() != svc {
                            return bad("event-meta", format!("{e:?} at a proxy of {svc:?}"));
                        }
                        let id = match e {
                            $event::Arg(e) => e.id() == 1,
                            $event::Tick(e) => e.id() == 2,
                            $event::Text(e) => e.id() == 5,
                            #[allow(unreachable_patterns)]
                            _ => true,
                        };
                        if !id {
                            return bad("event-meta", format!("{e:?}"));
                        }
                    }
                    let mut h = $hstruct::default();
                    if s % 2 == 0 {
                        if let Err(e) = $proxy::dispatch_event(e, &mut h).await {
                            return bad("event-error", format!("{e:?}"));
                        }
                    } else {
                        match e {
                            Ok($event::Arg(e)) => h.0.push(Got::Arg(e.args().clone())),
                            Ok($event::Tick(_)) => h.0.push(Got::Tick),
                            Ok($event::Text(e)) => h.0.push(Got::Text(e.map(|s| s).into_args())),
                            $(Ok($event::OtherEv(e)) => {
                                let _ = stringify!($fallback);
                                let v: u64 = match e.deserialize_and_cast::<u64>() {
                                    Ok(e) => e.into_args(),
                                    Err(x) => return bad("event-decode", format!("{e:?}: {x:?}")),
                                };
                                h.0.push(Got::Other(e.id(), v))
                            })?
                            Err(Error::InvalidArguments(e)) => h.0.push(Got::Invalid(e.id())),
                            Err(e) => return bad("event-error", format!("{e:?}")),
                        }
                    }
                    let mut sh = sh.borrow_mut();
                    sh.events += 1;
                    sh.subs[k].got.extend(h.0);
                };
                if ended {
                    sh.borrow_mut().subs[k].ended = true;
                    break;
                }
                if phase == 0 {
                    s = vp::mix(s);
                    let mut err = None;
                    if s % 2 == 0 || wild {
                        err = p.unsubscribe_all().await.err();
                    } else {
                        for i in &ids {
                            let r = match i {
                                1 => p.unsubscribe_arg().await,
                                2 => p.unsubscribe_tick().await,
                                5 => p.unsubscribe_text().await,
                                _ => p.inner().unsubscribe(*i).await,
                            };
                            err = err.or(r.err());
                        }
                    }
                    if let Some(e) = err {
                        if !excused(&sh, &e) && !(sh.borrow().gone && e == Error::InvalidService) {
                            return bad("unsubscribe", format!("unsubscribing from {ids:?}: {e:?}"));
                        }
                    }
                }
            }
            Ok(())
        }
    };
}

subscriber!(listen_full, FullProxy, FullEvent, FullEventHandler, FullEH, other_ev);
subscriber!(listen_bare, BareProxy, BareEvent, BareEventHandler, BareEH);

/// What a subscriber has to get for an emission.
fn delivered(full: bool, e: &Emit) -> Option<Got> {
    Some(match e {
        Emit::Arg(t, _) => Got::Arg(arg(*t)),
        Emit::Tick => Got::Tick,
        Emit::Text(t, _) => Got::Text(word(*t)),
        Emit::Other(id, t) if full => Got::Other(*id, *t),
        Emit::Other(..) => return None,
        Emit::Wrong(id, _) => Got::Invalid(*id),
    })
}

/// One channel between two clients.
#[derive(Clone, Copy)]
struct Chan {
    a: usize,
    b: usize,
    /// The sending end is claimed at creation.
    sender_first: bool,
    cap: u32,
    n: u64,
    /// The receiver stops after that many items.
    stop: Option<u64>,
    seed: u64,
    /// 0: used; 1: the other end is closed unclaimed; 2: it is dropped; 3: the own end is closed.
    end: u8,
}

fn item(c: &Chan, i: u64) -> Result<u64, ()> {
    if vp::mix(c.seed ^ i) % 9 == 0 {
        Err(())
    } else {
        Ok(vp::mix(i ^ c.seed))
    }
}

/// Through a serialized value, as it would go through a call.
fn ship_s(u: UnboundSender<u64>) -> UnboundSender<u64> {
    SerializedValue::serialize(u).unwrap().deserialize().unwrap()
}

fn ship_r(u: UnboundReceiver<u64>) -> UnboundReceiver<u64> {
    SerializedValue::serialize(u).unwrap().deserialize().unwrap()
}

async fn send_side(sh: Shared, c: Chan, mut s: aldrin::Sender<u64>, stopped: Rc<RefCell<bool>>) -> R {
    let mut k = c.seed;
    for i in 0..c.n {
        k = vp::mix(k);
        let r = match item(&c, i) {
            Ok(v) => match k % 7 {
                0 => s.send_item(v).await,
                1 => s.send_item_val(v).await,
                2 => s.send_item_ref(&v).await,
                3 => match s.send_ready().await {
                    Ok(()) => s.start_send_item_val(v),
                    Err(e) => Err(e),
                },
                4 => match poll_fn(|cx| s.poll_send_ready(cx)).await {
                    Ok(()) => s.start_send_item_ref(&v),
                    Err(e) => Err(e),
                },
                5 => SinkExt::send(&mut s, v).await,
                _ => {
                    let mut l = s.into_lowlevel();
                    let r = l.send_item(v).await;
                    s = l.cast();
                    r
                }
            },
            Err(()) => {
                let mut t = s.cast::<String>();
                let r = t.send_item("not a number").await;
                s = t.cast();
                r
            }
        };
        if let Err(e) = r {
            let ok = e == Error::InvalidChannel && *stopped.borrow() || excused(&sh, &e);
            if !ok {
                return bad("send", format!("sending item {i} of {}: {e:?}", c.n));
            }
            return Ok(());
        }
    }
    k = vp::mix(k);
    if c.stop.is_some_and(|n| n <= c.n) && k % 2 == 0 {
        if k % 4 == 0 {
            s.receiver_closed().await;
        } else {
            poll_fn(|cx| s.poll_receiver_closed(cx)).await;
        }
        let done = *stopped.borrow() || sh.borrow().lenient;
        if !done {
            return bad("receiver-closed", "the receiver has not been closed".into());
        }
    }
    match k % 5 {
        0 | 1 => {
            if let Err(e) = s.close().await {
                if !(e == Error::InvalidChannel && *stopped.borrow()) && !excused(&sh, &e) {
                    return bad("close-sender", format!("{e:?}"));
                }
            }
        }
        2 => {
            if let Err(e) = SinkExt::<u64>::close(&mut s).await {
                if !(e == Error::InvalidChannel && *stopped.borrow()) && !excused(&sh, &e) {
                    return bad("close-sender", format!("{e:?}"));
                }
            }
        }
        _ => drop(s),
    }
    Ok(())
}

async fn recv_side(sh: Shared, c: Chan, mut r: aldrin::Receiver<u64>, stopped: Rc<RefCell<bool>>) -> R {
    let mut k = c.seed ^ 0xabc;
    let mut i = 0;
    loop {
        if c.stop == Some(i) {
            *stopped.borrow_mut() = true;
            k = vp::mix(k);
            if k % 2 == 0 {
                if let Err(e) = r.close().await {
                    // The sender may be done by now.
                    if e != Error::InvalidChannel && !excused(&sh, &e) {
                        return bad("close-receiver", format!("{e:?}"));
                    }
                }
            }
            return Ok(());
        }
        k = vp::mix(k);
        let x = match k % 6 {
            0 => r.next_item().await,
            1 => r.next_item_as::<u64>().await,
            2 => {
                if FusedStream::is_terminated(&r) {
                    return bad("terminated", format!("the stream says that it is over after {i} items"));
                }
                r.next().await.transpose()
            }
            3 => poll_fn(|cx| r.poll_next_item(cx)).await,
            4 => {
                let mut l = r.into_lowlevel();
                let x = l.next_item::<u64>().await;
                r = l.cast();
                x
            }
            _ => {
                let mut t = r.cast::<u64>();
                let x = t.next_item().await;
                r = t;
                x
            }
        };
        sh.borrow_mut().items += 1;
        let want = item(&c, i);
        match (x, want) {
            (Ok(Some(v)), Ok(w)) if v == w && i < c.n => i += 1,
            (Err(Error::InvalidItem(_)), Err(())) if i < c.n => i += 1,
            (Ok(None), _) => {
                if i < c.n && !sh.borrow().lenient {
                    return bad("items", format!("{i} of {} items arrived", c.n));
                }
                if !matches!(r.next_item().await, Ok(None)) {
                    return bad("items", "something follows the end".into());
                }
                return Ok(());
            }
            (Err(e), _) if excused(&sh, &e) => return Ok(()),
            (x, w) => return bad("items", format!("item {i} of {}: {x:?}, expected {w:?}", c.n)),
        }
    }
}

/// The results an end may have when the other one does not come.
fn not_established<T>(sh: &Shared, r: Result<T, Error>) -> R {
    match r {
        Err(Error::InvalidChannel) => Ok(()),
        Err(e) if excused(sh, &e) => Ok(()),
        Err(e) => bad("establish", format!("the other end is gone: {e:?}")),
        Ok(_) => bad("establish", "established though nobody claimed the other end".into()),
    }
}

async fn first_end(sh: Shared, c: Chan, h: Handle, cell: Guard<SerializedValue>, stopped: Rc<RefCell<bool>>) -> R {
    let b = if c.seed % 2 == 0 { h.create_channel::<u64>() } else { aldrin::ChannelBuilder::<String>::new(&h).cast() };
    macro_rules! pending {
        ($p:ident, $u:ident) => {{
            cell.put(SerializedValue::serialize($u.unbind()).unwrap());
            match c.seed % 5 {
                0 => $p.wait_established().await,
                1 => poll_fn(|cx| $p.poll_wait_established(cx)).await,
                2 => $p = $p.into_lowlevel().cast(),
                3 => $p = $p.cast::<u64>(),
                _ => {}
            }
            if c.end == 3 {
                *stopped.borrow_mut() = true;
                return match $p.close().await {
                    Ok(()) => Ok(()),
                    // The other end is gone already.
                    Err(Error::InvalidChannel) => Ok(()),
                    Err(e) if excused(&sh, &e) => Ok(()),
                    Err(e) => bad("close-pending", format!("{e:?}")),
                };
            }
            $p.establish().await
        }};
    }
    if c.sender_first {
        match b.claim_sender().await {
            Ok((mut p, u)) => {
                let r = pending!(p, u);
                if c.end != 0 {
                    return not_established(&sh, r);
                }
                match r {
                    Ok(s) => send_side(sh, c, s, stopped).await,
                    Err(e) if excused(&sh, &e) => Ok(()),
                    Err(e) => bad("establish", format!("the sender: {e:?}")),
                }
            }
            Err(e) if excused(&sh, &e) => Ok(()),
            Err(e) => bad("create-channel", format!("{e:?}")),
        }
    } else {
        match b.claim_receiver(c.cap).await {
            Ok((u, mut p)) => {
                let r = pending!(p, u);
                if c.end != 0 {
                    return not_established(&sh, r);
                }
                match r {
                    Ok(r) => recv_side(sh, c, r, stopped).await,
                    Err(e) if excused(&sh, &e) => Ok(()),
                    Err(e) => bad("establish", format!("the receiver: {e:?}")),
                }
            }
            Err(e) if excused(&sh, &e) => Ok(()),
            Err(e) => bad("create-channel", format!("{e:?}")),
        }
    }
}

async fn second_end(sh: Shared, c: Chan, h: Handle, cell: Cell<SerializedValue>, stopped: Rc<RefCell<bool>>) -> R {
    let Some(v) = cell.get().await else { return Ok(()) };
    macro_rules! other {
        ($u:ident, $claim:expr, $use:ident, $name:expr) => {{
            match c.end {
                1 => {
                    let mut x = $u.bind(h);
                    let r = if c.seed % 3 == 0 { poll_fn(|cx| x.poll_close(cx)).await } else { x.close().await };
                    return match r {
                        Ok(()) => Ok(()),
                        Err(e) if excused(&sh, &e) => Ok(()),
                        Err(e) => bad("close-unclaimed", format!("{e:?}")),
                    };
                }
                2 => {
                    drop($u.bind(h));
                    return Ok(());
                }
                _ => {}
            }
            match $claim.await {
                Ok(x) => {
                    if c.end == 3 {
                        // The first end is closed or will be.
                        drop(x);
                        return Ok(());
                    }
                    if c.seed % 4 == 0 {
                        // It was claimed already.
                        let again = $u.bind(x.client().clone());
                        let r = again.claim_some(c.cap).await;
                        match r {
                            Err(Error::InvalidChannel) => {}
                            Err(e) if excused(&sh, &e) => {}
                            Err(e) => return bad("claimed-twice", format!("{e:?}")),
                            Ok(()) => return bad("claimed-twice", "an end was claimed twice".into()),
                        }
                    }
                    $use(sh, c, x, stopped).await
                }
                Err(Error::InvalidChannel) if c.end == 3 => Ok(()),
                Err(e) if excused(&sh, &e) => Ok(()),
                Err(e) => bad("claim", format!("the {}: {e:?}", $name)),
            }
        }};
    }
    if c.sender_first {
        let u = ship_r(v.deserialize().unwrap());
        let (h2, seed, cap) = (h.clone(), c.seed, c.cap);
        let claim = async move {
            match seed % 3 {
                0 => u.claim(h2, cap).await,
                1 => u.bind(h2).claim(cap).await,
                _ => u.as_low_level().claim(h2, cap).await.map(|r| r.cast()),
            }
        };
        other!(u, claim, recv_side, "receiver")
    } else {
        let u = ship_s(v.deserialize().unwrap());
        let (h2, seed) = (h.clone(), c.seed);
        let claim = async move {
            match seed % 3 {
                0 => u.claim(h2).await,
                1 => u.bind(h2).claim().await,
                _ => u.as_low_level().claim(h2).await.map(|r| r.cast()),
            }
        };
        other!(u, claim, send_side, "sender")
    }
}

trait ClaimSome {
    async fn claim_some(self, cap: u32) -> Result<(), Error>;
}

impl ClaimSome for aldrin::UnclaimedSender<u64> {
    async fn claim_some(self, _: u32) -> Result<(), Error> {
        self.claim().await.map(|_| ())
    }
}

impl ClaimSome for aldrin::UnclaimedReceiver<u64> {
    async fn claim_some(self, cap: u32) -> Result<(), Error> {
        self.claim(cap).await.map(|_| ())
    }
}

/// Calls, steps, events, late answers, channels.
const ALL: [u64; 5] = [8, 5, 4, 3, 5];

/// A scenario with typed services, events and channels.
fn scenario(w: &mut W, src: &mut Src, confs: &[Conf], lenient: bool, focus: &[u64; 5]) -> (R, Shared) {
    let sh: Shared = Rc::new(RefCell::new(Sh { lenient, ..Default::default() }));
    WAITING.with(|w| w.borrow_mut().clear());
    let r = drive(w, src, confs, &sh, focus);
    WAITING.with(|w| w.borrow_mut().clear());
    (r, sh)
}

fn drive(w: &mut W, src: &mut Src, confs: &[Conf], sh: &Shared, focus: &[u64; 5]) -> R {
    let mut a = A { w, sh: sh.clone() };
    let lenient = sh.borrow().lenient;
    a.w.drain(src)?;
    let n = confs.len();
    let handle = |a: &A, c: usize| a.w.st.borrow().cls[c].handle.clone();

    // The services.
    let server = src.us(n);
    let which = *src.pick(&[[true, true], [true, false], [false, true], [true, true]]);
    // A callee that is older than 1.16 is never told about aborts.
    let cmds: [Rc<RefCell<Cmds>>; 2] = Default::default();
    let objects: Cell<aldrin::Object> = Cell::new();
    let seed = src.below(1 << 32);
    if let Some(h) = handle(&a, server) {
        let (sh2, cmds2, objects2) = (sh.clone(), cmds.clone(), objects.clone());
        let minor = confs[server].minor;
        let fulls: Cell<Full> = Cell::new();
        let bares: Cell<Bare> = Cell::new();
        let (f2, b2) = (fulls.clone(), bares.clone());
        let h2 = h.clone();
        a.spawn("setup".into(), server, true, async move {
            let (f, b, o) = (Guard(f2, false), Guard(b2, false), Guard(objects2, false));
            let r = if seed % 2 == 0 {
                h2.register_introspection::<Full>().and_then(|()| h2.register_introspection::<Bare>())
            } else {
                Ok(())
            };
            match r.and_then(|()| h2.submit_introspection()) {
                Ok(()) => {}
                Err(e) if excused(&sh2, &e) => return Ok(()),
                Err(e) => return bad("introspection", format!("submitting it: {e:?}")),
            }
            let obj = match aldrin::Object::new(&h2, ObjectUuid(uuid!("00000000-0000-4000-8000-0000000000f0"))).await {
                Ok(o) => o,
                Err(e) if excused(&sh2, &e) => return Ok(()),
                Err(e) => return bad("object", format!("{e:?}")),
            };
            if which[0] {
                match Full::new(&obj).await {
                    Ok(s) => {
                        sh2.borrow_mut().ids[0] = Some(s.id());
                        f.put(s)
                    }
                    Err(e) if excused(&sh2, &e) => return Ok(()),
                    Err(e) => return bad("service", format!("{e:?}")),
                }
            }
            if which[1] {
                match Bare::new(&obj).await {
                    Ok(s) => {
                        sh2.borrow_mut().ids[1] = Some(s.id());
                        b.put(s)
                    }
                    Err(e) if excused(&sh2, &e) => return Ok(()),
                    Err(e) => return bad("service", format!("{e:?}")),
                }
            }
            o.put(obj);
            Ok(())
        });
        let aborts = minor >= 16;
        let (sh2, c2) = (sh.clone(), cmds2[0].clone());
        a.spawn("serve full".into(), server, false, async move {
            match fulls.get().await {
                Some(s) => serve_full(sh2, s, c2, aborts, seed).await,
                None => Ok(()),
            }
        });
        let (sh2, c2) = (sh.clone(), cmds2[1].clone());
        a.spawn("serve bare".into(), server, false, async move {
            match bares.get().await {
                Some(s) => serve_bare(sh2, s, c2, aborts, seed ^ 1).await,
                None => Ok(()),
            }
        });
    }
    a.quiesce(src)?;
    a.hung(false)?;

    // Proxies: one per client for calls, some for events.
    let fulls: Rc<RefCell<BTreeMap<usize, Rc<FullProxy>>>> = Default::default();
    let bares: Rc<RefCell<BTreeMap<usize, Rc<BareProxy>>>> = Default::default();
    let ids = sh.borrow().ids;
    for c in 0..n {
        for (k, id) in ids.into_iter().enumerate() {
            let (Some(id), Some(h)) = (id, handle(&a, c)) else { continue };
            let subs = src.us(3);
            let mut mine = Vec::new();
            for _ in 0..subs {
                let mut sets: [Vec<u32>; 2] = Default::default();
                let mut wild = [false; 2];
                for i in 0..2 {
                    wild[i] = confs[c].minor >= 18 && confs[server].minor >= 18 && src.chance(1, 6);
                    sets[i] = match src.us(3) {
                        0 => vec![1, 2, 5],
                        _ => [1, 2, 5, 9, 0].into_iter().filter(|_| src.chance(1, 2)).collect(),
                    };
                }
                let deaf = confs[c].minor < 18 && sets[1].is_empty();
                let mut s = sh.borrow_mut();
                s.subs.push(Sub {
                    phases: sets,
                    ready: false,
                    stop: Default::default(),
                    got: Vec::new(),
                    ended: false,
                    full: k == 0,
                    deaf,
                    wild,
                });
                mine.push((s.subs.len() - 1, src.below(1 << 32)));
            }
            macro_rules! proxies {
                ($proxy:ident, $svc:ident, $listen:ident, $map:ident) => {{
                    let (sh2, map, h2) = (sh.clone(), $map.clone(), h.clone());
                    let known = seed % 2 == 0 && confs[server].minor >= 17 && confs[c].minor >= 17;
                    // A client asks itself about its own types, but only newer ones tell their ids.
                    a.spawn("proxy".into(), c, true, async move {
                        let p = match $proxy::new(&h2, id).await {
                            Ok(p) => p,
                            Err(e) if excused(&sh2, &e) => return Ok(()),
                            Err(e) => return bad("proxy", format!("{e:?}")),
                        };
                        if p.id() != id || p.version() != $svc::VERSION || $proxy::UUID != $svc::UUID {
                            return bad("proxy-meta", format!("{:?}, version {}", p.id(), p.version()));
                        }
                        let p = Rc::new(p);
                        map.borrow_mut().insert(c, p.clone());
                        match p.query_introspection().await {
                            Ok(Some(i)) => {
                                if i != $proxy::introspection() || i != $svc::introspection() || !known {
                                    return bad("introspection", format!("a proxy of {id:?} gets {i:?}"));
                                }
                                sh2.borrow_mut().introspections += 1;
                            }
                            Ok(None) => {
                                let s = sh2.borrow();
                                if known && !s.gone && !s.lenient {
                                    return bad("introspection", format!("a proxy of {id:?} gets none"));
                                }
                            }
                            Err(e) if excused(&sh2, &e) => return Ok(()),
                            Err(e) => return bad("introspection", format!("{e:?}")),
                        }
                        let other = ServiceId::new(id.object_id, ServiceUuid::NIL, id.cookie);
                        match $proxy::new(&h2, other).await {
                            Err(Error::InvalidService) => Ok(()),
                            Err(e) if excused(&sh2, &e) => Ok(()),
                            r => bad("proxy-uuid", format!("a proxy of {other:?}: {:?}", r.map(|_| ()))),
                        }
                    });
                    for (i, s) in mine {
                        let (sh2, h2) = (sh.clone(), h.clone());
                        a.spawn("subscriber".into(), c, false, async move {
                            match $proxy::new(&h2, id).await {
                                Ok(p) => $listen(sh2, p, i, s).await,
                                Err(e) if excused(&sh2, &e) => Ok(()),
                                Err(e) => bad("proxy", format!("{e:?}")),
                            }
                        });
                    }
                }};
            }
            if k == 0 {
                proxies!(FullProxy, Full, listen_full, fulls);
            } else {
                proxies!(BareProxy, Bare, listen_bare, bares);
            }
        }
    }
    a.quiesce(src)?;
    a.hung(false)?;
    if !lenient && sh.borrow().subs.iter().any(|s| !s.ready) {
        return bad("hang-subscribe", "a subscriber never gets to listen".into());
    }

    let object = {
        let cell = objects.0.borrow_mut().0.take();
        cell.flatten()
    };
    let mut emitted: [[Vec<Emit>; 2]; 2] = Default::default();
    let early = src.chance(1, 6);
    let mut object = object;
    for phase in 0..2 {
        let ops = src.range(3, 30);
        for _ in 0..ops {
            let mut tok = src.below(1 << 20);
            match src.weighted(focus) {
                0 => {
                    let c = src.us(n);
                    let (fun, how) = (src.below(9), src.below(1 << 20));
                    let given_up = src.chance(1, 8);
                    // The peer of a caller older than 1.16 is never told that the call was aborted.
                    while confs[c].minor < 16 && plan(tok) == Plan::Aborted {
                        tok += 1;
                    }
                    let sh2 = sh.clone();
                    let (f, b) = (fulls.borrow().get(&c).cloned(), bares.borrow().get(&c).cloned());
                    if let (Some(p), true) = (&f, b.is_none() || src.bool()) {
                        a.spawn(format!("call full {fun} {tok}"), c, true, call_full(sh2, p.clone(), fun, tok, how, given_up));
                    } else if let Some(p) = b {
                        a.spawn(format!("call bare {fun} {tok}"), c, true, call_bare(sh2, p, fun, tok, how, given_up));
                    }
                }
                1 => {
                    let n = src.range(1, 12);
                    a.w.steps(src, n)?;
                }
                2 => {
                    let k = src.us(2);
                    let way = src.below(3) as u8;
                    let e = match src.us(6) {
                        0 | 1 => Emit::Arg(tok, way),
                        2 => Emit::Tick,
                        3 => Emit::Text(tok, way),
                        4 => Emit::Other(*src.pick(&[0u32, 9, 9, 77]), tok),
                        _ => Emit::Wrong(*src.pick(&[1u32, 2, 5]), tok),
                    };
                    if which[k] && !sh.borrow().gone {
                        emitted[k][phase].push(e.clone());
                        let mut c = cmds[k].borrow_mut();
                        c.emits.push_back(e);
                        c.wake();
                    }
                }
                3 => {
                    let (nl, na) = (sh.borrow().late.len(), sh.borrow().aborts.len());
                    if nl > 0 && (na == 0 || src.bool()) {
                        let f = sh.borrow_mut().late.swap_remove(src.us(nl));
                        a.late(f)?;
                    } else if na > 0 {
                        let f = sh.borrow_mut().aborts.swap_remove(src.us(na));
                        f();
                    }
                }
                _ => {
                    let c = Chan {
                        a: src.us(n),
                        b: src.us(n),
                        sender_first: src.bool(),
                        cap: *src.pick(&[1u32, 2, 0, 3, 5, 8, 16, 40]),
                        n: src.below(24),
                        stop: src.chance(1, 4).then(|| src.below(20)),
                        seed: src.below(1 << 32),
                        end: *src.pick(&[0u8, 0, 0, 0, 0, 0, 1, 2, 3]),
                    };
                    let (Some(ha), Some(hb)) = (handle(&a, c.a), handle(&a, c.b)) else { continue };
                    let cell = Cell::new();
                    let stopped = Rc::new(RefCell::new(c.end != 0));
                    a.spawn("channel".into(), c.a, true, first_end(sh.clone(), c, ha, Guard(cell.clone(), false), stopped.clone()));
                    a.spawn("channel-end".into(), c.b, true, second_end(sh.clone(), c, hb, cell, stopped));
                }
            }
            waiting(&mut a);
        }
        if phase == 1 && early {
            // Calls are cut off.
            sh.borrow_mut().gone = true;
            if src.bool() {
                object = None;
            } else if let Some(o) = object.take() {
                let sh2 = sh.clone();
                a.spawn("destroy".into(), server, true, async move {
                    match o.destroy().await {
                        Ok(()) => Ok(()),
                        Err(e) if excused(&sh2, &e) => Ok(()),
                        Err(e) => bad("destroy", format!("{e:?}")),
                    }
                });
            }
        }
        a.quiesce(src)?;
        waiting(&mut a);
        a.quiesce(src)?;
        a.hung(false)?;
        if !lenient {
            let s = sh.borrow();
            if !s.gone {
                for (i, sub) in s.subs.iter().enumerate() {
                    let em = &emitted[usize::from(!sub.full)];
                    let mut want: Vec<Got> = Vec::new();
                    for (ph, em) in em.iter().enumerate().take(phase + 1) {
                        let on = |e: &&Emit| sub.wild[ph] || sub.phases[ph].contains(&e.id());
                        want.extend(em.iter().filter(on).filter_map(|e| delivered(sub.full, e)));
                    }
                    if sub.got != want || sub.ended {
                        let m = format!(
                            "subscriber {i} (full: {}, {:?}, all: {:?}) got {:?}, expected {want:?} (ended: {}) after phase {phase}",
                            sub.full, sub.phases, sub.wild, sub.got, sub.ended
                        );
                        return bad("events", m);
                    }
                }
            }
            if !s.gone && s.given.values().any(|x| !x) && s.calls == 0 {
                return bad("number", "never".into());
            }
        }
        if phase == 0 {
            for s in &sh.borrow().subs {
                let mut c = s.stop.borrow_mut();
                c.stop = true;
                c.wake();
            }
            a.quiesce(src)?;
        }
    }

    // Everything ends.
    if let (Some(o), false) = (object.take(), lenient) {
        sh.borrow_mut().gone = true;
        match src.us(3) {
            0 => drop(o),
            1 => {
                for c in &cmds {
                    let mut c = c.borrow_mut();
                    c.stop = true;
                    c.wake();
                }
                a.quiesce(src)?;
                drop(o);
            }
            _ => {
                let sh2 = sh.clone();
                a.spawn("destroy".into(), server, true, async move {
                    match o.destroy().await {
                        Err(e) if !excused(&sh2, &e) => bad("destroy", format!("{e:?}")),
                        _ => Ok(()),
                    }
                });
            }
        }
        a.quiesce(src)?;
        // Services of an object that is destroyed by its owner do not notice.
        for c in &cmds {
            let mut c = c.borrow_mut();
            c.stop = true;
            c.wake();
        }
        a.quiesce(src)?;
        a.hung(false)?;
        if let Some(x) = sh.borrow().actors.iter().find(|x| !x.2 && x.0 != "aborted" && x.0 != "subscriber") {
            return bad("hang-end", format!("{} of client {} goes on after the end of the service", x.0, x.1));
        }
        if let Some(i) = sh.borrow().subs.iter().position(|s| !s.ended && !s.deaf) {
            return bad("events-end", format!("subscriber {i} does not see the end of the service"));
        }
    }
    fulls.borrow_mut().clear();
    bares.borrow_mut().clear();
    sh.borrow_mut().lenient = true;
    for c in 0..n {
        if !a.w.st.borrow().stopped(c) {
            a.w.shutdown(c);
        }
        if src.bool() {
            a.quiesce(src)?;
        }
    }
    a.quiesce(src)?;
    waiting(&mut a);
    a.quiesce(src)?;
    a.hung(true)?;
    a.w.wind_up(src)
}

/// Spawns what waits for calls to be aborted.
fn waiting(a: &mut A) {
    let v: Vec<_> = WAITING.with(|w| w.borrow_mut().drain(..).collect());
    for f in v {
        a.spawn("aborted".into(), usize::MAX, true, async move {
            if f.await {
                Ok(())
            } else {
                bad("aborted", "aborted resolves and is_aborted says no".into())
            }
        });
    }
}

fn counts(ctx: &mut Ctx, sh: &Shared) -> bool {
    let s = sh.borrow();
    ctx.count_n("typed calls", s.calls);
    ctx.count_n("typed replies", s.replies);
    ctx.count_n("introspections", s.introspections);
    ctx.count_n("typed events", s.events);
    ctx.count_n("typed items", s.items);
    s.replies + s.events + s.items >= 5
}

fn describe(ctx: &mut Ctx, w: &W) {
    if let Some(l) = &w.st.borrow().log {
        for x in l {
            ctx.describe(|| x.clone());
        }
    }
}

pub fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cs = confs(src);
    let mut w = W::new(src, ctx.want_desc, cs.clone())?;
    let (r, sh) = scenario(&mut w, src, &cs, false, &ALL);
    ctx.nontrivial = counts(ctx, &sh);
    describe(ctx, &w);
    r.map_err(|f| Fail::new(f.sig, f.msg))
}

/// The same with a client that ends at some point.
pub fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    use crate::tap::FAULTS;
    let mut cs = confs(src);
    let victim = src.us(cs.len());
    let k = src.range(3, 160) as u64;
    match src.us(7) {
        n @ 0..=4 => cs[victim].plan = Some((k, FAULTS[n])),
        5 => cs[victim].cause = Some((k, Cause::Shutdown)),
        _ => cs[victim].cause = Some((k, Cause::Broker)),
    }
    let mut w = W::new(src, ctx.want_desc, cs.clone())?;
    let (r, sh) = scenario(&mut w, src, &cs, true, &ALL);
    let ended = w.st.borrow().cls[victim].cause.is_none() && cs[victim].cause.is_some()
        || w.st.borrow().cls[victim].tap.borrow().fired.is_some();
    ctx.count_n("ended on the way", ended as u64);
    ctx.nontrivial = counts(ctx, &sh) && ended;
    describe(ctx, &w);
    r.map_err(|f| Fail::new(f.sig, f.msg))
}

/// The part of it that concerns one property: calls, events, channels.
pub fn focused(src: &mut Src, ctx: &mut Ctx, focus: &[u64; 5], mine: fn(&Fail) -> bool) -> Res {
    let cs = confs(src);
    let mut w = W::new(src, ctx.want_desc, cs.clone())?;
    let (r, sh) = scenario(&mut w, src, &cs, false, focus);
    ctx.nontrivial = counts(ctx, &sh);
    describe(ctx, &w);
    match r {
        Err(f) if mine(&f) => Err(f),
        Err(_) => {
            ctx.count("given up");
            Ok(())
        }
        Ok(()) => Ok(()),
    }
}
