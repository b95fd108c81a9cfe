use crate::msgs::{self, F, Frame};
use aldrin_core::message::{Message, Packetizer};
use aldrin_core::tokio::{TokioTransport, TokioTransportError};
use aldrin_core::transport::{AsyncTransport, AsyncTransportExt};
use bytes::BytesMut;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::mem::MaybeUninit;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use vp::{ensure, fail, Ctx, Fail, Kind, Part, Property, Res, Src};

/// A frame whose size is drawn from many magnitudes.
fn gen_msg(src: &mut Src, big: usize) -> Frame {
    if src.chance(1, 3) {
        let len = match src.us(8) {
            0..=3 => src.range(1, 60),
            4 | 5 => src.range(1, 3000),
            6 => *src.pick(&[8 * 1024 - 30, 8 * 1024 - 26, 8 * 1024, 64 * 1024 - 27, 64 * 1024 - 26, 64 * 1024 - 25, 64 * 1024, 65 * 1024]),
            _ => src.range(1, big),
        };
        let id = src.byte();
        Frame { kind: 27, value: Some(src.bulk(len)), fields: vec![F::I([id; 16])] }
    } else {
        let mut f = msgs::gen_frame(src);
        if let Some(v) = &mut f.value {
            v.truncate(300);
        }
        f
    }
}

fn put(dst: &mut [MaybeUninit<u8>], src: &[u8]) -> usize {
    let n = dst.len().min(src.len());
    for (d, s) in dst.iter_mut().zip(src) {
        d.write(*s);
    }
    n
}

/// Packetizer, both interfaces, any chunking.
fn run_packetizer(src: &mut Src, ctx: &mut Ctx, frames: Vec<Vec<u8>>, max_chunk: usize) -> Res {
    let stream: Vec<u8> = frames.concat();
    let mut ends = Vec::new();
    let mut e = 0;
    for f in &frames {
        e += f.len();
        ends.push(e);
    }
    let mut p = Packetizer::new();
    let mut pos = 0;
    let mut got: Vec<BytesMut> = Vec::new();
    let keep = src.bool();
    let iface = src.us(3);
    let eager = src.us(3);
    let style = src.us(4);
    let mut polled = 0;
    let mut n_got = 0;
    let mut chunks = 0u64;
    let drain = |p: &mut Packetizer, pos: usize, n_got: &mut usize, got: &mut Vec<BytesMut>, all: bool| -> Res {
        loop {
            let complete = *n_got < ends.len() && ends[*n_got] <= pos;
            match p.next_message() {
                Some(m) => {
                    ensure!(complete, "too-early", "a message after {pos} bytes, frames end at {ends:?}, {n_got} taken before");
                    let start = ends[*n_got] - frames[*n_got].len();
                    ensure!(
                        m[..] == stream[start..ends[*n_got]],
                        "frame",
                        "frame {n_got}: got {} bytes {}, want {} bytes {}",
                        m.len(),
                        vp::hex(&m),
                        frames[*n_got].len(),
                        vp::hex(&frames[*n_got])
                    );
                    *n_got += 1;
                    if keep {
                        got.push(m);
                    }
                }
                None => {
                    ensure!(!complete, "missing", "no message after {pos} bytes, frames end at {ends:?}, {n_got} taken");
                    return Ok(());
                }
            }
            if !all {
                return Ok(());
            }
        }
    };
    while pos < stream.len() {
        let left = stream.len() - pos;
        let next_end = ends.iter().find(|e| **e > pos).copied().unwrap() - pos;
        let want = match style {
            0 => 1,
            1 => src.range(1, max_chunk),
            2 => match src.us(6) {
                0 => next_end,
                1 => next_end + 1,
                2 => next_end.saturating_sub(1).max(1),
                3 => next_end + src.range(1, 5),
                4 => 1 + src.small(8),
                _ => src.range(1, max_chunk),
            },
            _ => left,
        }
        .min(left);
        // byte-wise only where it matters, to keep large frames affordable
        let want = if style == 0 && next_end > 64 && left > 64 { next_end - 32 } else { want };
        let want = want.min(left);
        let by_spare = match iface {
            0 => false,
            1 => true,
            _ => src.bool(),
        };
        let n = if by_spare {
            let s = p.spare_capacity_mut();
            ensure!(!s.is_empty(), "no-spare", "spare capacity is empty after {pos} bytes");
            let n = if style == 3 { put(s, &stream[pos..]) } else { put(s, &stream[pos..pos + want]) };
            unsafe { p.bytes_written(n) };
            n
        } else {
            p.extend_from_slice(&stream[pos..pos + want]);
            want
        };
        pos += n;
        chunks += 1;
        polled += 1;
        match eager {
            0 => drain(&mut p, pos, &mut n_got, &mut got, true)?,
            1 => {
                if polled % 3 == 0 {
                    drain(&mut p, pos, &mut n_got, &mut got, true)?
                }
            }
            _ => {
                if src.bool() {
                    drain(&mut p, pos, &mut n_got, &mut got, src.bool())?
                }
            }
        }
    }
    drain(&mut p, pos, &mut n_got, &mut got, true)?;
    ensure!(n_got == frames.len(), "lost", "{n_got} of {} frames", frames.len());
    ensure!(p.next_message().is_none(), "extra", "a message after the last");
    // frames kept around are not overwritten by later input
    if keep {
        for (i, (g, f)) in got.iter().zip(&frames).enumerate() {
            ensure!(g[..] == f[..], "overwritten", "frame {i} changed after it was taken");
        }
    }
    ctx.count_n("chunks", chunks);
    ctx.count_n("frames", frames.len() as u64);
    ctx.count(["extend_from_slice", "spare_capacity_mut", "both interfaces"][iface]);
    Ok(())
}

fn packetizer(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + src.small(14);
    let frames: Vec<Vec<u8>> = (0..n).map(|_| msgs::encode(&gen_msg(src, 140_000))).collect();
    ctx.describe(|| format!("frames of {:?} bytes", frames.iter().map(|f| f.len()).collect::<Vec<_>>()));
    ctx.nontrivial = frames.len() > 1;
    if frames.iter().any(|f| f.len() > 64 * 1024) {
        ctx.count("beyond 64 KiB");
    }
    let max = *src.pick(&[7usize, 40, 500, 9000, 70_000]);
    run_packetizer(src, ctx, frames, max)
}

/// Frames beyond the largest reserve step.
fn packetizer_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut frames = Vec::new();
    for _ in 0..3 {
        let len = match src.us(3) {
            0 => src.range(1, 100),
            1 => 4 * 1024 * 1024 + src.range(0, 60) - 40,
            _ => src.range(60_000, 9_000_000),
        };
        frames.push(msgs::encode(&Frame { kind: 27, value: Some(src.bulk(len)), fields: vec![F::I([1; 16])] }));
    }
    ctx.describe(|| format!("frames of {:?} bytes", frames.iter().map(|f| f.len()).collect::<Vec<_>>()));
    ctx.nontrivial = true;
    run_packetizer(src, ctx, frames, 700_000)
}

/// Every way to cut a short stream in two or three, both interfaces.
fn splits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let frames: Vec<Vec<u8>> = (0..3)
        .map(|_| {
            let mut f = msgs::gen_frame(src);
            if let Some(v) = &mut f.value {
                v.truncate(10);
            }
            msgs::encode(&f)
        })
        .collect();
    let stream = frames.concat();
    ctx.nontrivial = true;
    ctx.describe(|| format!("all splits in three of {}", vp::hex(&stream)));
    for a in 0..=stream.len() {
        for b in a..=stream.len() {
            for iface in 0..2 {
                let mut p = Packetizer::new();
                let mut got = Vec::new();
                let mut fed = 0;
                for part in [&stream[..a], &stream[a..b], &stream[b..]] {
                    if iface == 0 {
                        p.extend_from_slice(part);
                    } else {
                        let mut part = part;
                        while !part.is_empty() {
                            let s = p.spare_capacity_mut();
                            ensure!(!s.is_empty(), "no-spare", "split at {a}, {b}");
                            let n = put(s, part);
                            unsafe { p.bytes_written(n) };
                            part = &part[n..];
                        }
                    }
                    fed += part.len();
                    while let Some(m) = p.next_message() {
                        got.push(m.to_vec());
                    }
                    let mut e = 0;
                    let complete = frames.iter().take_while(|f| { e += f.len(); e <= fed }).count();
                    ensure!(got.len() == complete, "split-timing", "split at {a}, {b}: {} messages after {fed} bytes, {complete} are complete", got.len());
                }
                ensure!(got == frames, "split", "split at {a}, {b} of {}: {got:?}", vp::hex(&stream));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ transport

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Open,
    Eof,
    Error,
}

struct Io {
    /// Bytes that may be read now, and what comes after them.
    input: VecDeque<u8>,
    end: End,
    written: Vec<u8>,
    flushed: usize,
    /// Pre-drawn behaviour, used up in order and then cyclically.
    reads: Vec<u8>,
    writes: Vec<u8>,
    flushes: Vec<u8>,
    ri: usize,
    wi: usize,
    fi: usize,
    /// Write call number at which a zero-length write or an error happens.
    zero_at: Option<usize>,
    err_at: Option<usize>,
    flush_err_at: Option<usize>,
    writes_done: usize,
    flushes_done: usize,
    pending_returned: usize,
    zero_returned: bool,
    err_returned: bool,
    read_err_returned: bool,
    eof_returned: bool,
    empty_read_buf: bool,
}

impl Io {
    fn step(script: &[u8], i: &mut usize) -> u8 {
        let v = if script.is_empty() { 255 } else { script[*i % script.len()] };
        // after the script was used once, never be pending, so that everything comes to an end
        let v = if *i >= script.len() && v == 0 { 255 } else { v };
        *i += 1;
        v
    }
}

fn size(v: u8, max: usize) -> usize {
    let n = match v {
        1..=9 => v as usize,
        10..=99 => v as usize * 37,
        100..=150 => (v as usize - 99) * 1021,
        _ => max,
    };
    n.clamp(1, max.max(1))
}

#[derive(Clone)]
struct Script(Rc<RefCell<Io>>);

impl AsyncRead for Script {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.borrow_mut();
        if buf.remaining() == 0 {
            s.empty_read_buf = true;
        }
        if s.input.is_empty() {
            return match s.end {
                End::Open => {
                    s.pending_returned += 1;
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
                End::Eof => {
                    s.eof_returned = true;
                    Poll::Ready(Ok(()))
                }
                End::Error => {
                    s.read_err_returned = true;
                    Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()))
                }
            };
        }
        let Io { reads, ri, .. } = &mut *s;
        let v = Io::step(reads, ri);
        if v == 0 {
            s.pending_returned += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = size(v, buf.remaining()).min(buf.remaining()).min(s.input.len());
        let part: Vec<u8> = s.input.drain(..n).collect();
        buf.put_slice(&part);
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Script {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.borrow_mut();
        let Io { writes, wi, .. } = &mut *s;
        let v = Io::step(writes, wi);
        if v == 0 {
            s.pending_returned += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        s.writes_done += 1;
        if s.zero_at == Some(s.writes_done) {
            s.zero_returned = true;
            return Poll::Ready(Ok(0));
        }
        if s.err_at == Some(s.writes_done) {
            s.err_returned = true;
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = size(v, buf.len()).min(buf.len());
        s.written.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.borrow_mut();
        let Io { flushes, fi, .. } = &mut *s;
        let v = Io::step(flushes, fi);
        if v == 0 {
            s.pending_returned += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        s.flushes_done += 1;
        if s.flush_err_at == Some(s.flushes_done) {
            s.err_returned = true;
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        s.flushed = s.written.len();
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct Woken(AtomicUsize);

impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

type Dyn = Pin<Box<dyn AsyncTransport<Error = TokioTransportError>>>;

struct World {
    io: Rc<RefCell<Io>>,
    t: Dyn,
    woken: Arc<Woken>,
    incoming: Vec<Message>,
    received: usize,
    /// Frames handed to `send_start`.
    sent: Vec<u8>,
    sent_msgs: usize,
    buffered: bool,
}

impl World {
    /// Polls; a pending result must come from a pending I/O call made with this poll's waker.
    fn poll<T>(&mut self, f: impl FnOnce(&mut Dyn, &mut Context) -> Poll<T>) -> Result<Poll<T>, Fail> {
        let waker = Waker::from(self.woken.clone());
        let mut cx = Context::from_waker(&waker);
        let before = self.woken.0.load(Ordering::Relaxed);
        let r = f(&mut self.t, &mut cx);
        if r.is_pending() {
            ensure!(
                self.woken.0.load(Ordering::Relaxed) > before,
                "lost-wakeup",
                "pending although no I/O call made with this task's waker is pending"
            );
        }
        ensure!(!self.io.borrow().empty_read_buf, "empty-read", "a read was attempted with an empty buffer");
        self.check_written()?;
        Ok(r)
    }

    fn check_written(&self) -> Res {
        let s = self.io.borrow();
        ensure!(
            s.written.len() <= self.sent.len() && s.written[..] == self.sent[..s.written.len()],
            "written",
            "{} bytes were written, which are not a prefix of the {} bytes sent",
            s.written.len(),
            self.sent.len()
        );
        Ok(())
    }

    fn on_received(&mut self, m: Message) -> Res {
        ensure!(self.received < self.incoming.len(), "extra-message", "received {m:?} after all {} messages", self.received);
        let want = &self.incoming[self.received];
        ensure!(m == *want, "received", "message {}: got {m:?}, want {want:?}", self.received);
        self.received += 1;
        Ok(())
    }

    /// The receive side's error, once there is one.
    fn on_recv_error(&mut self, e: TokioTransportError) -> Res {
        let s = self.io.borrow();
        match e {
            TokioTransportError::Io(e) => {
                let ok = (e.kind() == io::ErrorKind::UnexpectedEof && s.eof_returned) || (e.kind() == io::ErrorKind::ConnectionReset && s.read_err_returned);
                ensure!(ok, "recv-error", "unexpected error {e:?}");
                ensure!(self.received == self.incoming.len(), "lost-message", "{e:?} after {} of {} complete messages", self.received, self.incoming.len());
                Ok(())
            }
            e => fail!("recv-error", "unexpected error {e:?} (message {} of {})", self.received, self.incoming.len()),
        }
    }

    fn on_send_error(&mut self, e: TokioTransportError) -> Res {
        let s = self.io.borrow();
        match &e {
            TokioTransportError::Io(e) if e.kind() == io::ErrorKind::WriteZero => {
                ensure!(s.zero_returned, "send-error", "{e:?} without a zero-length write")
            }
            TokioTransportError::Io(e) if e.kind() == io::ErrorKind::BrokenPipe => {
                ensure!(s.err_returned, "send-error", "{e:?} out of nothing")
            }
            _ => fail!("send-error", "unexpected error {e:?}"),
        }
        Ok(())
    }

    fn after_flush(&self) -> Res {
        let s = self.io.borrow();
        ensure!(!s.zero_returned && !s.err_returned, "error-hidden", "flush succeeded in spite of an I/O error");
        ensure!(
            s.written.len() == self.sent.len(),
            "flush-incomplete",
            "flush returned with {} of {} bytes written ({} messages)",
            s.written.len(),
            self.sent.len(),
            self.sent_msgs
        );
        ensure!(s.flushed == s.written.len(), "io-not-flushed", "flush returned but the I/O object was not flushed: {} of {} bytes", s.flushed, s.written.len());
        Ok(())
    }
}

fn script(src: &mut Src) -> Vec<u8> {
    let mode = src.us(4);
    let n = src.small(40);
    (0..n)
        .map(|_| match mode {
            0 => 255,
            1 => src.range(0, 4) as u8,
            2 => *src.pick(&[0u8, 1, 3, 12, 50, 101, 255]),
            _ => src.byte(),
        })
        .collect()
}

fn transport(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n_in = src.small(10);
    let n_out = src.small(10);
    let in_frames: Vec<Frame> = (0..n_in).map(|_| gen_msg(src, 100_000)).collect();
    let mut out_frames: VecDeque<Frame> = (0..n_out).map(|_| gen_msg(src, 60_000)).collect();
    let mut stream: VecDeque<u8> = in_frames.iter().flat_map(msgs::encode).collect();
    let total_in = stream.len();
    // the stream may end within a message
    let end = *src.pick(&[End::Eof, End::Eof, End::Error]);
    let partial = if src.bool() {
        let f = msgs::encode(&gen_msg(src, 3000));
        let k = src.us(f.len());
        stream.extend(&f[..k]);
        k
    } else {
        0
    };
    let fault = src.us(8);
    let at = 1 + src.small(30);
    let io = Io {
        input: VecDeque::new(),
        end: End::Open,
        written: Vec::new(),
        flushed: 0,
        reads: script(src),
        writes: script(src),
        flushes: script(src),
        ri: 0,
        wi: 0,
        fi: 0,
        zero_at: (fault == 1).then_some(at),
        err_at: (fault == 2).then_some(at),
        flush_err_at: (fault == 3).then_some(1 + at % 3),
        writes_done: 0,
        flushes_done: 0,
        pending_returned: 0,
        zero_returned: false,
        err_returned: false,
        read_err_returned: false,
        eof_returned: false,
        empty_read_buf: false,
    };
    ctx.describe(|| {
        format!(
            "in {:?} bytes + {partial} bytes of another, then {end:?}; out {:?} bytes; fault {fault} at {at}; reads {:?} writes {:?} flushes {:?}",
            in_frames.iter().map(|f| msgs::encode(f).len()).collect::<Vec<_>>(),
            out_frames.iter().map(|f| msgs::encode(f).len()).collect::<Vec<_>>(),
            io.reads,
            io.writes,
            io.flushes
        )
    });
    let io = Rc::new(RefCell::new(io));
    let inner = TokioTransport::new(Script(io.clone()));
    let wrap = src.us(5);
    let t: Dyn = match wrap {
        0 => Box::pin(inner),
        1 => Box::pin(inner.buffered()),
        2 => Box::pin(Box::new(inner)),
        3 => Box::pin(inner.map_err(|e| e)),
        _ => Box::pin(Box::pin(inner.buffered().buffered())),
    };
    ctx.count(["plain", "buffered", "boxed", "map_err", "buffered twice"][wrap]);
    let mut w = World {
        io: io.clone(),
        t,
        woken: Arc::new(Woken(AtomicUsize::new(0))),
        incoming: in_frames.iter().map(msgs::build).collect(),
        received: 0,
        sent: Vec::new(),
        sent_msgs: 0,
        buffered: matches!(wrap, 1 | 4),
    };
    ctx.nontrivial = n_in + n_out >= 2;

    let steps = src.small(60);
    let mut recv_dead = false;
    for _ in 0..steps {
        match src.us(7) {
            0 | 1 => {
                let k = match src.us(4) {
                    0 => 1,
                    1 => src.range(1, 40),
                    2 => src.range(1, 20_000),
                    _ => stream.len(),
                }
                .min(stream.len());
                let part: Vec<u8> = stream.drain(..k).collect();
                io.borrow_mut().input.extend(part);
                if stream.is_empty() && src.bool() {
                    io.borrow_mut().end = end;
                }
            }
            2 | 3 if !recv_dead => match w.poll(|t, cx| t.as_mut().receive_poll(cx))? {
                Poll::Ready(Ok(m)) => w.on_received(m)?,
                Poll::Ready(Err(e)) => {
                    w.on_recv_error(e)?;
                    recv_dead = true;
                }
                Poll::Pending => {}
            },
            4 | 5 => match w.poll(|t, cx| t.as_mut().send_poll_ready(cx))? {
                Poll::Ready(Ok(())) => {
                    ensure!(!io.borrow().zero_returned || w.buffered, "zero-write-hidden", "a zero-length write was not reported");
                    if let Some(f) = out_frames.pop_front() {
                        w.sent.extend(msgs::encode(&f));
                        w.sent_msgs += 1;
                        match w.t.as_mut().send_start(msgs::build(&f)) {
                            Ok(()) => w.check_written()?,
                            Err(e) => fail!("send-start", "{e:?}"),
                        }
                    }
                }
                Poll::Ready(Err(e)) => {
                    ctx.count("send error");
                    return w.on_send_error(e);
                }
                Poll::Pending => {}
            },
            _ => match w.poll(|t, cx| t.as_mut().send_poll_flush(cx))? {
                Poll::Ready(Ok(())) => w.after_flush()?,
                Poll::Ready(Err(e)) => {
                    ctx.count("send error");
                    return w.on_send_error(e);
                }
                Poll::Pending => {}
            },
        }
    }

    // send what is left with the future adapters, then flush
    let mut budget = 20_000_000usize;
    while let Some(f) = out_frames.pop_front() {
        let m = msgs::build(&f);
        let flush = src.bool();
        w.sent.extend(msgs::encode(&f));
        w.sent_msgs += 1;
        let waker = Waker::from(w.woken.clone());
        let mut cx = Context::from_waker(&waker);
        let r = {
            let t = &mut w.t;
            let mut fut: Pin<Box<dyn Future<Output = Result<(), TokioTransportError>>>> =
                if flush { Box::pin(t.send_and_flush(m)) } else { Box::pin(t.send(m)) };
            loop {
                budget -= 1;
                ensure!(budget > 0, "no-progress", "sending does not end");
                let before = w.woken.0.load(Ordering::Relaxed);
                match fut.as_mut().poll(&mut cx) {
                    Poll::Ready(r) => break r,
                    Poll::Pending => ensure!(w.woken.0.load(Ordering::Relaxed) > before, "lost-wakeup", "send pending without pending I/O"),
                }
            }
        };
        w.check_written()?;
        match r {
            Ok(()) if flush => w.after_flush()?,
            Ok(()) => {}
            Err(e) => {
                ctx.count("send error");
                return w.on_send_error(e);
            }
        }
    }
    let r = {
        let waker = Waker::from(w.woken.clone());
        let mut cx = Context::from_waker(&waker);
        let mut fut = pin!(w.t.flush());
        loop {
            budget -= 1;
            ensure!(budget > 0, "no-progress", "flushing does not end");
            if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                break r;
            }
        }
    };
    match r {
        Ok(()) => w.after_flush()?,
        Err(e) => {
            ctx.count("send error");
            return w.on_send_error(e);
        }
    }
    ensure!(w.sent == io.borrow().written, "written", "not everything was written");
    ctx.count_n("messages sent", w.sent_msgs as u64);

    // receive what is left, up to the end of the stream
    {
        let mut s = io.borrow_mut();
        s.input.extend(stream.drain(..));
        s.end = end;
    }
    while !recv_dead {
        budget -= 1;
        ensure!(budget > 0, "no-progress", "receiving does not end");
        match w.poll(|t, cx| t.as_mut().receive_poll(cx))? {
            Poll::Ready(Ok(m)) => w.on_received(m)?,
            Poll::Ready(Err(e)) => {
                w.on_recv_error(e)?;
                recv_dead = true;
            }
            Poll::Pending => {}
        }
    }
    ensure!(w.received == w.incoming.len(), "lost-message", "{} of {}", w.received, w.incoming.len());
    ctx.count_n("messages received", w.received as u64);
    ctx.count_n("bytes in", total_in as u64);
    if io.borrow().pending_returned > 0 {
        ctx.count("with pending I/O");
    }
    Ok(())
}

/// An inner transport that refuses, accepts and fails as scripted, behind `Buffered`.
struct Inner {
    ready: Vec<u8>,
    i: usize,
    was_ready: bool,
    started: Vec<Message>,
    flushed: usize,
    bad: bool,
}

struct InnerT(Rc<RefCell<Inner>>);

impl AsyncTransport for InnerT {
    type Error = ();

    fn receive_poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<Message, ()>> {
        Poll::Pending
    }

    fn send_poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        let mut s = self.0.borrow_mut();
        let Inner { ready, i, .. } = &mut *s;
        let v = Io::step(ready, i);
        if v == 0 || v == 2 {
            if v == 2 && *i > ready.len() {
                s.was_ready = true;
                return Poll::Ready(Ok(()));
            }
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        s.was_ready = true;
        Poll::Ready(Ok(()))
    }

    fn send_start(self: Pin<&mut Self>, m: Message) -> Result<(), ()> {
        let mut s = self.0.borrow_mut();
        if !s.was_ready {
            s.bad = true;
        }
        s.was_ready = false;
        s.started.push(m);
        Ok(())
    }

    fn send_poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        let mut s = self.0.borrow_mut();
        let Inner { ready, i, .. } = &mut *s;
        if Io::step(ready, i) == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        s.flushed = s.started.len();
        Poll::Ready(Ok(()))
    }
}

fn buffered(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.small(30);
    let script: Vec<u8> = (0..n).map(|_| *src.pick(&[255u8, 0, 1, 2])).collect();
    let inner = Rc::new(RefCell::new(Inner { ready: script.clone(), i: 0, was_ready: false, started: vec![], flushed: 0, bad: false }));
    let mut t = InnerT(inner.clone()).buffered();
    let waker = Waker::noop();
    let mut cx = Context::from_waker(waker);
    let mut sent: Vec<Message> = Vec::new();
    let steps = 1 + src.small(60);
    ctx.describe(|| format!("inner script {script:?}, {steps} steps"));
    let mut ops = 0;
    for k in 0..steps + 1000 {
        let op = if k < steps { src.us(3) } else { 2 };
        if op < 2 {
            match t.send_poll_ready_unpin(&mut cx) {
                Poll::Ready(Ok(())) => {
                    let m = msgs::build(&msgs::gen_frame(src));
                    sent.push(m.clone());
                    ensure!(t.send_start_unpin(m) == Ok(()), "buffered-start", "send_start fails");
                }
                Poll::Ready(Err(())) => fail!("buffered-ready", "error out of nothing"),
                Poll::Pending => {}
            }
        } else {
            ops += 1;
            match t.send_poll_flush_unpin(&mut cx) {
                Poll::Ready(Ok(())) => {
                    let s = inner.borrow();
                    ensure!(s.started.len() == sent.len() && s.flushed == sent.len(), "buffered-flush", "flushed: {} of {} passed on, {} flushed", s.started.len(), sent.len(), s.flushed);
                    if k >= steps {
                        break;
                    }
                }
                Poll::Ready(Err(())) => fail!("buffered-flush", "error out of nothing"),
                Poll::Pending => ensure!(k < steps + 900, "buffered-stuck", "flush does not end"),
            }
        }
        let s = inner.borrow();
        ensure!(!s.bad, "buffered-protocol", "send_start without a successful send_poll_ready");
        ensure!(s.started.len() <= sent.len() && s.started[..] == sent[..s.started.len()], "buffered-order", "messages passed on are not a prefix of those sent");
    }
    ctx.nontrivial = sent.len() >= 2 && ops >= 2;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C14",
        level: "exploration",
        rule: "Sequences of frames of all message kinds, 5 bytes to beyond the 64 KiB and 4 MiB reserve steps, fed to the packetizer through extend_from_slice, spare_capacity_mut/bytes_written or both, in single bytes, random chunks, chunks around frame ends, or all at once, with eager and lazy extraction, keeping or dropping the frames; every split in three of short streams; TokioTransport (plain, boxed, buffered once and twice, map_err) over a scripted I/O object that returns short reads and writes, pending, end-of-stream, errors and zero-length writes at drawn points, with interleaved receive/send/flush; Buffered over a scripted inner transport. The oracle is the byte string itself: frames in order, each exactly when complete; the written bytes are always a prefix of the frames sent and complete and flushed after a flush; pending only while an I/O call with the same waker is pending. Non-trivial: at least two messages.",
        assumptions: &["reads and writes are scripted in-process; no sockets"],
        parts: vec![
            Part::new("splits", Kind::Random(4_000, 200_000), splits).secs(10, 300),
            Part::new("packetizer", Kind::Random(400_000, 20_000_000), packetizer).secs(20, 1200),
            Part::new("huge", Kind::Random(200, 6_000), packetizer_huge).secs(15, 400),
            Part::new("transport", Kind::Random(400_000, 20_000_000), transport).secs(20, 1500),
            Part::new("buffered", Kind::Random(300_000, 20_000_000), buffered).secs(8, 300),
        ],
    }
}
