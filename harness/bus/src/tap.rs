//! The clients' transport: the repository's transports with a tap on the client's side that
//! negotiates a chosen minor version, checks what goes over the wire and injects faults.
use crate::model::min_version;
use crate::sim::frame_of;
use crate::world::uses_v2;
use aldrin_core::channel::{bounded, unbounded, Bounded, Unbounded};
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::tokio::TokioTransport;
use aldrin_core::transport::AsyncTransport;
use aldrin_core::ServiceCookie;
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// Everything fails.
    All,
    Recv,
    /// Handing over messages fails; receiving goes on.
    Send,
    Flush,
    /// The other side is gone.
    Eof,
}

pub const FAULTS: [Fault; 5] = [Fault::All, Fault::Recv, Fault::Send, Fault::Flush, Fault::Eof];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TapError {
    Closed,
    Injected,
}

#[derive(Default)]
pub struct TapSt {
    pub minor: u32,
    pub ops: u64,
    /// Messages received.
    pub heard: u64,
    pub plan: Option<(u64, Fault)>,
    pub fired: Option<Fault>,
    /// The fault was reported to the client.
    pub reported: bool,
    pub rx: Option<Waker>,
    pub tx: Option<Waker>,
    pub bad: Option<String>,
    pub seen: [[u64; 16]; 4],
    pub v2: u64,
    /// Events (or all, `None`) of services the client is subscribed to by what it sent.
    pub subs: BTreeSet<(ServiceCookie, Option<u32>)>,
}

const TO: &str = "to the client";

impl TapSt {
    pub fn fire(&mut self, f: Fault) {
        self.fired.get_or_insert(f);
        for w in [self.rx.take(), self.tx.take()].into_iter().flatten() {
            w.wake();
        }
    }

    /// Counts a transport operation that succeeded; fires the planned fault.
    fn op(&mut self) {
        self.ops += 1;
        if let Some((k, f)) = self.plan {
            if self.ops >= k {
                self.plan = None;
                self.fire(f);
            }
        }
    }

    fn fails(&mut self, on: &[Fault]) -> Option<TapError> {
        let f = self.fired?;
        if f == Fault::Eof {
            self.reported = true;
            return Some(TapError::Closed);
        }
        if f == Fault::All || on.contains(&f) {
            self.reported = true;
            return Some(TapError::Injected);
        }
        None
    }

    fn watch(&mut self, m: &Message, dir: &str) {
        let k: u8 = m.kind().into();
        self.seen[(k as usize & 63) >> 4][k as usize & 15] += 1;
        match m {
            Message::SubscribeEvent(m) if m.serial.is_some() => {
                self.subs.insert((m.service_cookie, Some(m.event)));
            }
            Message::UnsubscribeEvent(m) if dir != TO => {
                self.subs.remove(&(m.service_cookie, Some(m.event)));
            }
            Message::SubscribeAllEvents(m) if m.serial.is_some() => {
                self.subs.insert((m.service_cookie, None));
            }
            Message::UnsubscribeAllEvents(m) if dir != TO => {
                self.subs.remove(&(m.service_cookie, None));
            }
            _ => {}
        }
        if min_version(k) > self.minor {
            self.bad.get_or_insert_with(|| format!("{dir}: {m:?} at version 1.{}", self.minor));
        }
        match frame_of(m.clone()) {
            Ok(f) => {
                if let Some(v) = &f.value {
                    if uses_v2(v) {
                        self.v2 += 1;
                        if self.minor < 20 && k != 46 && k != 47 {
                            self.bad.get_or_insert_with(|| {
                                format!("{dir}: {m:?} with V2 containers at version 1.{}", self.minor)
                            });
                        }
                    }
                }
            }
            Err(e) => {
                self.bad.get_or_insert_with(|| format!("{dir}: {e}"));
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Wire {
    Unbounded,
    Bounded(usize),
    /// A byte stream with short reads and writes that holds so many bytes.
    Stream(usize),
}

struct Bytes {
    buf: VecDeque<u8>,
    cap: usize,
    /// No more bytes come in, or none are taken out.
    closed: bool,
    rx: Option<Waker>,
    tx: Option<Waker>,
    seed: u64,
}

impl Bytes {
    fn new(cap: usize) -> Rc<RefCell<Self>> {
        Rc::new(RefCell::new(Self { buf: VecDeque::new(), cap, closed: false, rx: None, tx: None, seed: cap as u64 }))
    }

    /// How many of up to `max` bytes; none is a spurious wakeup.
    fn some(&mut self, max: usize) -> usize {
        self.seed = vp::mix(self.seed);
        match self.seed % 8 {
            0 => 0,
            1..=2 => 1 + (self.seed >> 8) as usize % max,
            3 => 1,
            _ => max,
        }
    }
}

/// One side of a byte stream.
pub struct Duplex {
    r: Rc<RefCell<Bytes>>,
    w: Rc<RefCell<Bytes>>,
}

impl std::fmt::Debug for Duplex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Duplex")
    }
}

impl Drop for Duplex {
    fn drop(&mut self) {
        for b in [&self.r, &self.w] {
            let mut b = b.borrow_mut();
            b.closed = true;
            for w in [b.rx.take(), b.tx.take()].into_iter().flatten() {
                w.wake();
            }
        }
    }
}

impl tokio::io::AsyncRead for Duplex {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context, out: &mut tokio::io::ReadBuf) -> Poll<std::io::Result<()>> {
        let mut b = self.r.borrow_mut();
        let max = b.buf.len().min(out.remaining());
        if max == 0 {
            if b.closed {
                return Poll::Ready(Ok(()));
            }
            b.rx = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = b.some(max);
        if n == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        for x in b.buf.drain(..n) {
            out.put_slice(&[x]);
        }
        if let Some(w) = b.tx.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}

impl tokio::io::AsyncWrite for Duplex {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, data: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut b = self.w.borrow_mut();
        if b.closed {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        let max = (b.cap - b.buf.len()).min(data.len());
        if max == 0 {
            b.tx = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = b.some(max);
        if n == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        b.buf.extend(&data[..n]);
        if let Some(w) = b.rx.take() {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

#[derive(Debug)]
pub enum Net {
    U(Unbounded),
    B(Bounded),
    T(TokioTransport<Duplex>),
}

macro_rules! net {
    ($self:expr, $t:ident => $e:expr) => {
        match $self.get_mut() {
            Net::U(x) => {
                let $t = Pin::new(x);
                $e
            }
            Net::B(x) => {
                let $t = Pin::new(x);
                $e
            }
            Net::T(x) => {
                let $t = Pin::new(x);
                $e
            }
        }
    };
}

impl AsyncTransport for Net {
    type Error = TapError;
    fn receive_poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, TapError>> {
        net!(self, t => t.receive_poll(cx).map_err(|_| TapError::Closed))
    }
    fn send_poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), TapError>> {
        net!(self, t => t.send_poll_ready(cx).map_err(|_| TapError::Closed))
    }
    fn send_start(self: Pin<&mut Self>, m: Message) -> Result<(), TapError> {
        net!(self, t => t.send_start(m).map_err(|_| TapError::Closed))
    }
    fn send_poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), TapError>> {
        net!(self, t => t.send_poll_flush(cx).map_err(|_| TapError::Closed))
    }
}

pub fn pair(kind: Wire) -> (Net, Net) {
    match kind {
        Wire::Unbounded => {
            let (a, b) = unbounded();
            (Net::U(a), Net::U(b))
        }
        Wire::Bounded(n) => {
            let (a, b) = bounded(n);
            (Net::B(a), Net::B(b))
        }
        Wire::Stream(n) => {
            let (x, y) = (Bytes::new(n), Bytes::new(n));
            let (a, b) = (Duplex { r: x.clone(), w: y.clone() }, Duplex { r: y, w: x });
            (Net::T(TokioTransport::new(a)), Net::T(TokioTransport::new(b)))
        }
    }
}

pub struct Tap {
    pub inner: Option<Net>,
    pub st: Rc<RefCell<TapSt>>,
}

impl std::fmt::Debug for Tap {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Tap")
    }
}

impl Tap {
    fn cut(&mut self) {
        if self.st.borrow().fired == Some(Fault::Eof) {
            self.inner = None;
        }
    }
}

impl AsyncTransport for Tap {
    type Error = TapError;

    fn receive_poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, TapError>> {
        self.cut();
        let st = self.st.clone();
        let mut st = st.borrow_mut();
        if let Some(e) = st.fails(&[Fault::Recv]) {
            return Poll::Ready(Err(e));
        }
        match Pin::new(self.inner.as_mut().unwrap()).receive_poll(cx) {
            Poll::Ready(Ok(m)) => {
                st.op();
                if let Some(e) = st.fails(&[Fault::Recv]) {
                    return Poll::Ready(Err(e));
                }
                st.heard += 1;
                st.watch(&m, TO);
                Poll::Ready(Ok(m))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => {
                st.rx = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }

    fn send_poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), TapError>> {
        self.cut();
        let st = self.st.clone();
        let mut st = st.borrow_mut();
        if let Some(e) = st.fails(&[Fault::Send]) {
            return Poll::Ready(Err(e));
        }
        let r = Pin::new(self.inner.as_mut().unwrap()).send_poll_ready(cx);
        if r.is_pending() {
            st.tx = Some(cx.waker().clone());
        }
        r
    }

    fn send_start(mut self: Pin<&mut Self>, mut m: Message) -> Result<(), TapError> {
        self.cut();
        let st = self.st.clone();
        let mut st = st.borrow_mut();
        st.op();
        if let Some(e) = st.fails(&[Fault::Send]) {
            return Err(e);
        }
        if let Message::Connect2(c) = &mut m {
            c.minor_version = st.minor;
        }
        st.watch(&m, "from the client");
        Pin::new(self.inner.as_mut().unwrap()).send_start(m)
    }

    fn send_poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), TapError>> {
        self.cut();
        let st = self.st.clone();
        let mut st = st.borrow_mut();
        if let Some(e) = st.fails(&[Fault::Send, Fault::Flush]) {
            return Poll::Ready(Err(e));
        }
        let r = Pin::new(self.inner.as_mut().unwrap()).send_poll_flush(cx);
        match &r {
            Poll::Ready(Ok(())) => {
                st.op();
                if let Some(e) = st.fails(&[Fault::Send, Fault::Flush]) {
                    return Poll::Ready(Err(e));
                }
            }
            Poll::Pending => st.tx = Some(cx.waker().clone()),
            _ => {}
        }
        r
    }
}
