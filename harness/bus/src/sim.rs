//! Deterministic single-threaded executor and scripted in-memory transports.
use crate::msgs::{self, Frame};
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::transport::AsyncTransport;
use bytes::BytesMut;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
}

#[derive(Default)]
pub struct Exec {
    tasks: Vec<Task>,
    pub polls: u64,
}

impl Exec {
    pub fn spawn(&mut self, fut: impl Future<Output = ()> + 'static) -> usize {
        self.tasks.push(Task { fut: Some(Box::pin(fut)), flag: Arc::new(Flag(AtomicBool::new(true))) });
        self.tasks.len() - 1
    }

    pub fn alive(&self, i: usize) -> bool {
        self.tasks[i].fut.is_some()
    }

    pub fn is_ready(&self, i: usize) -> bool {
        self.tasks[i].fut.is_some() && self.tasks[i].flag.0.load(Ordering::SeqCst)
    }

    pub fn ready(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|i| self.is_ready(*i)).collect()
    }

    /// Polls a task; true when it is finished.
    pub fn poll(&mut self, i: usize) -> bool {
        self.polls += 1;
        let t = &mut self.tasks[i];
        let Some(mut fut) = t.fut.take() else {
            return true;
        };
        t.flag.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(t.flag.clone());
        let mut cx = Context::from_waker(&waker);
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(()) => true,
            Poll::Pending => {
                t.fut = Some(fut);
                false
            }
        }
    }

    pub fn drop_task(&mut self, i: usize) {
        self.tasks[i].fut = None;
    }

    pub fn len(&self) -> usize {
        self.tasks.len()
    }
}

/// Polls a future that is expected to finish without outside help.
pub fn now<F: Future>(fut: F) -> Option<F::Output> {
    let mut fut = Box::pin(fut);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..16 {
        if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
            return Some(r);
        }
    }
    None
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PortError {
    Closed,
    Injected,
    /// The peer sent a message that does not serialize, or not to a parsable frame.
    Bad(String),
}

#[derive(Debug)]
pub enum In {
    Msg(Message, Frame),
    Error,
}

/// What reached the broker's queue, in this order.
#[derive(Debug, Clone)]
pub enum Ev {
    New(usize),
    Msg(usize, Frame),
    CleanEnd(usize),
    ErrorEnd(usize),
    Force(usize),
    Dropped(usize),
    ShutdownIdle,
    Shutdown,
    /// A request for statistics or a snapshot.
    Probe(usize),
}

pub type Log = Rc<RefCell<Vec<Ev>>>;

#[derive(Default)]
pub struct Pipe {
    pub id: usize,
    pub inbox: VecDeque<In>,
    /// Handed to the transport (`send_start`), in order; taken by the harness.
    pub sent: Vec<Frame>,
    /// How many of the messages handed over since the last flush were not flushed.
    pub unflushed: usize,
    pub rx_waker: Option<Waker>,
    pub tx_waker: Option<Waker>,
    pub stalled: bool,
    pub fail_send: bool,
    pub fail_flush: bool,
    pub attached: bool,
    pub ended: bool,
    pub bad: Option<String>,
}

impl Pipe {
    pub fn push(&mut self, m: In) {
        self.inbox.push_back(m);
        if let Some(w) = self.rx_waker.take() {
            w.wake();
        }
    }

    pub fn push_frame(&mut self, f: Frame) {
        let m = msgs::build(&f);
        self.push(In::Msg(m, f));
    }

    pub fn wake_tx(&mut self) {
        if let Some(w) = self.tx_waker.take() {
            w.wake();
        }
    }

    pub fn set_stalled(&mut self, s: bool) {
        self.stalled = s;
        if !s {
            self.wake_tx();
        }
    }
}

/// The broker's end of a raw connection.
pub struct Port {
    pub st: Rc<RefCell<Pipe>>,
    pub log: Log,
}

impl Port {
    fn fail(&self, p: &mut Pipe) -> PortError {
        if p.attached && !p.ended {
            p.ended = true;
            self.log.borrow_mut().push(Ev::ErrorEnd(p.id));
        }
        PortError::Injected
    }
}

pub fn frame_of(m: Message) -> Result<Frame, String> {
    let text = format!("{m:?}");
    let b: BytesMut = m.serialize_message().map_err(|e| format!("{text} does not serialize: {e:?}"))?;
    msgs::parse(&b).map(|x| x.0).map_err(|e| format!("{text} serializes to a bad frame: {e}"))
}

impl AsyncTransport for Port {
    type Error = PortError;

    fn receive_poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, PortError>> {
        let mut p = self.st.borrow_mut();
        match p.inbox.pop_front() {
            Some(In::Msg(m, f)) => {
                if p.attached && !p.ended {
                    if f.kind == 2 {
                        p.ended = true;
                        self.log.borrow_mut().push(Ev::CleanEnd(p.id));
                    } else {
                        self.log.borrow_mut().push(Ev::Msg(p.id, f));
                    }
                }
                Poll::Ready(Ok(m))
            }
            Some(In::Error) => {
                p.inbox.push_front(In::Error);
                Poll::Ready(Err(self.fail(&mut p)))
            }
            None => {
                p.rx_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }

    fn send_poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), PortError>> {
        let mut p = self.st.borrow_mut();
        if p.fail_send {
            return Poll::Ready(Err(self.fail(&mut p)));
        }
        if p.stalled {
            p.tx_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }

    fn send_start(self: Pin<&mut Self>, msg: Message) -> Result<(), PortError> {
        let mut p = self.st.borrow_mut();
        match frame_of(msg) {
            Ok(f) => {
                p.sent.push(f);
                p.unflushed += 1;
                Ok(())
            }
            Err(e) => {
                p.bad.get_or_insert(e);
                Ok(())
            }
        }
    }

    fn send_poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), PortError>> {
        let mut p = self.st.borrow_mut();
        if p.fail_flush {
            return Poll::Ready(Err(self.fail(&mut p)));
        }
        if p.stalled {
            p.tx_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        p.unflushed = 0;
        Poll::Ready(Ok(()))
    }
}
