//! An in-memory transport whose every behaviour is decided by the scenario: how much
//! a write accepts, when it is pending, when written data becomes visible, when a
//! flush completes, in what pieces data is read, when it is held back and how it ends.
//! Both directions are tapped; frames are recorded when they are complete.
use crate::frame::{self, Parsed};
use crate::log;
use async_trait::async_trait;
use bromine::error::{Error as IPCError, Result as IPCResult};
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
use serde_json::json;
use std::collections::{HashMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::mpsc;

/// How the transport behaves
#[derive(Clone, Debug)]
pub struct Flavor {
    pub seed: u64,
    /// largest number of bytes accepted by one write, 0: any
    pub wmax: usize,
    /// how often (in 1/8) a write, flush or read is pending first
    pub pend: u64,
    /// written data only becomes visible when flushed
    pub buffered: bool,
    /// largest number of bytes returned by one read, 0: any
    pub rmax: usize,
}

impl Default for Flavor {
    fn default() -> Self {
        Flavor { seed: 1, wmax: 0, pend: 0, buffered: false, rmax: 0 }
    }
}

pub struct PipeState {
    /// side that writes, 0 if that's the scenario
    pub w: usize,
    /// side that reads, 0 if that's the scenario
    pub r: usize,
    pub flavor: Flavor,
    rng: u64,
    /// bytes that may still be written, None: unlimited
    pub budget: Option<usize>,
    pub fhold: bool,
    pub rhold: bool,
    unflushed: Vec<u8>,
    dirty: bool,
    wtap: Vec<u8>,
    rtap: Vec<u8>,
    wtap_bad: bool,
    rtap_bad: bool,
    held: Vec<u8>,
    pub avail: VecDeque<u8>,
    pub eof: bool,
    pub rerr: bool,
    pub wclosed: bool,
    pub rclosed: bool,
    /// nothing is recorded (e.g. encrypted traffic)
    pub untapped: bool,
    /// nor how it ends
    pub silent: bool,
    /// every byte that became visible, if wanted
    pub capture: Option<Vec<u8>>,
    /// called with everything that became visible, or None at the end
    pub hook: Option<Hook>,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    /// all frames that became visible
    pub frames: Vec<frame::Frame>,
}

pub type Hook = Arc<dyn Fn(Option<&[u8]>) + Send + Sync>;

#[derive(Clone)]
pub struct Pipe(pub Arc<Mutex<PipeState>>);

impl Pipe {
    pub fn new(w: usize, r: usize, flavor: Flavor) -> Self {
        let rng = flavor.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ((w as u64) << 32) ^ (r as u64) ^ 0x1234567;
        Pipe(Arc::new(Mutex::new(PipeState {
            w,
            r,
            flavor,
            rng,
            budget: None,
            fhold: false,
            rhold: false,
            unflushed: vec![],
            dirty: false,
            wtap: vec![],
            rtap: vec![],
            wtap_bad: false,
            rtap_bad: false,
            held: vec![],
            avail: VecDeque::new(),
            eof: false,
            rerr: false,
            wclosed: false,
            rclosed: false,
            untapped: false,
            silent: false,
            capture: None,
            hook: None,
            rwaker: None,
            wwaker: None,
            frames: vec![],
        })))
    }

    pub fn lock(&self) -> MutexGuard<'_, PipeState> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl PipeState {
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng >> 16
    }

    fn pend(&mut self) -> bool {
        self.flavor.pend > 0 && self.rand() % 8 < self.flavor.pend
    }

    /// Data leaves the writer.
    pub fn visible(&mut self, b: &[u8]) {
        if let Some(c) = self.capture.as_mut() {
            c.extend_from_slice(b);
        }
        if let Some(h) = self.hook.clone() {
            h(Some(b));
        }
        if self.w != 0 && !self.untapped {
            self.wtap.extend_from_slice(b);
            while !self.wtap_bad {
                match frame::parse(&self.wtap) {
                    Parsed::Incomplete => break,
                    Parsed::Frame(f, n) => {
                        self.wtap.drain(..n);
                        if f.version[0] != 0 || f.version[1] != 9 || !f.extra.is_empty() {
                            log::ev("badtx", json!({"c": self.w, "why": "header"}));
                        }
                        log::ev("tx", json!({"c": self.w, "f": frame::frame_json(&f)}));
                        self.frames.push(f);
                    }
                    Parsed::Bad(why) => {
                        self.wtap_bad = true;
                        log::ev("badtx", json!({"c": self.w, "why": why}));
                    }
                }
            }
        }
        if self.rhold {
            self.held.extend_from_slice(b);
        } else {
            self.deliver(b);
        }
    }

    /// Data reaches the reader.
    fn deliver(&mut self, b: &[u8]) {
        if self.r != 0 && !self.untapped {
            self.rtap.extend_from_slice(b);
            while !self.rtap_bad {
                match frame::parse(&self.rtap) {
                    Parsed::Incomplete => break,
                    Parsed::Frame(f, n) => {
                        self.rtap.drain(..n);
                        log::ev("rx", json!({"c": self.r, "f": frame::frame_json(&f)}));
                    }
                    Parsed::Bad(_) => {
                        self.rtap_bad = true;
                        log::ev("rxbad", json!({"c": self.r}));
                    }
                }
            }
        }
        if self.r != 0 {
            self.avail.extend(b);
        }
        if let Some(w) = self.rwaker.take() {
            w.wake();
        }
    }

    /// The scenario writes.
    pub fn push(&mut self, b: &[u8]) {
        if !self.eof {
            self.visible(b);
        }
    }

    pub fn end(&mut self, error: bool) {
        if !self.eof {
            self.eof = true;
            self.rerr = error;
            if let Some(h) = self.hook.clone() {
                h(None);
            }
            if self.r != 0 && !self.untapped && !self.rhold {
                log::ev("rxeof", json!({"c": self.r}));
            }
        }
        if let Some(w) = self.rwaker.take() {
            w.wake();
        }
    }

    /// The scenario doesn't read anymore.
    pub fn refuse(&mut self) {
        if !self.rclosed {
            self.rclosed = true;
            if self.w != 0 {
                log::ev("set", json!({"c": self.w, "field": "wc", "v": true}));
            }
        }
        if let Some(w) = self.wwaker.take() {
            w.wake();
        }
    }

    pub fn set_budget(&mut self, b: Option<usize>) {
        self.budget = b;
        log::ev("set", json!({"c": self.w, "field": "wb", "v": b.is_some()}));
        if let Some(w) = self.wwaker.take() {
            w.wake();
        }
    }

    pub fn set_fhold(&mut self, v: bool) {
        self.fhold = v;
        log::ev("set", json!({"c": self.w, "field": "fh", "v": v}));
        if let Some(w) = self.wwaker.take() {
            w.wake();
        }
    }

    pub fn set_rhold(&mut self, v: bool) {
        if v == self.rhold || (v && self.eof) {
            return; // (what has arrived has arrived)
        }
        self.rhold = v;
        if !v {
            let h = std::mem::take(&mut self.held);
            self.deliver(&h);
            if self.eof && self.r != 0 && !self.untapped {
                log::ev("rxeof", json!({"c": self.r}));
            }
            if let Some(w) = self.rwaker.take() {
                w.wake();
            }
        }
    }
}

pub struct MemRead(pub Pipe);
pub struct MemWrite(pub Pipe);
pub struct MemStream {
    pub read: MemRead,
    pub write: MemWrite,
}

impl AsyncRead for MemRead {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.lock();
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if p.avail.is_empty() {
            if p.eof && !p.rhold {
                return Poll::Ready(if p.rerr { Err(io::ErrorKind::ConnectionReset.into()) } else { Ok(()) });
            }
            p.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if p.pend() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = p.avail.len().min(buf.remaining());
        if p.flavor.rmax > 0 {
            let m = p.flavor.rmax as u64;
            n = n.min(1 + (p.rand() % m) as usize);
        }
        let d: Vec<u8> = p.avail.drain(..n).collect();
        buf.put_slice(&d);
        Poll::Ready(Ok(()))
    }
}

impl Drop for MemRead {
    fn drop(&mut self) {
        let mut p = self.0.lock();
        p.rclosed = true;
        if p.r != 0 && !p.silent {
            log::ev("rdrop", json!({"c": p.r}));
        }
        if p.w != 0 && !p.silent {
            log::ev("set", json!({"c": p.w, "field": "wc", "v": true}));
        }
        if let Some(w) = p.wwaker.take() {
            w.wake();
        }
    }
}

impl AsyncWrite for MemWrite {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0.lock();
        if p.rclosed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if p.budget == Some(0) {
            p.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if p.pend() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = buf.len();
        if p.flavor.wmax > 0 {
            let m = p.flavor.wmax as u64;
            n = n.min(1 + (p.rand() % m) as usize);
        }
        if let Some(b) = p.budget.as_mut() {
            n = n.min(*b);
            *b -= n;
        }
        p.dirty = true;
        if p.flavor.buffered {
            p.unflushed.extend_from_slice(&buf[..n]);
        } else {
            p.visible(&buf[..n]);
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.lock();
        if p.rclosed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if p.fhold {
            p.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if p.pend() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let u = std::mem::take(&mut p.unflushed);
        if !u.is_empty() {
            p.visible(&u);
        }
        if p.dirty {
            p.dirty = false;
            if p.w != 0 && !p.untapped {
                log::ev("fl", json!({"c": p.w}));
            }
        }
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match self.as_mut().poll_flush(cx) {
            Poll::Ready(_) => {
                self.0.lock().end(false);
                Poll::Ready(Ok(()))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

impl Drop for MemWrite {
    fn drop(&mut self) {
        let mut p = self.0.lock();
        p.wclosed = true;
        if p.w != 0 && !p.silent {
            log::ev("wdrop", json!({"c": p.w}));
        }
        p.end(false);
    }
}

impl AsyncRead for MemStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.read).poll_read(cx, buf)
    }
}

impl AsyncWrite for MemStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.write).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.write).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.write).poll_shutdown(cx)
    }
}

impl AsyncProtocolStreamSplit for MemStream {
    type OwnedSplitReadHalf = MemRead;
    type OwnedSplitWriteHalf = MemWrite;
    fn protocol_into_split(self) -> (MemRead, MemWrite) {
        (self.read, self.write)
    }
}

/// A connection as seen by the scenario: `out` is written by the real side `side`,
/// `inp` is read by it. For a connection between two real sides there is one for each.
#[derive(Clone)]
pub struct Conn {
    pub side: usize,
    pub peer: usize,
    pub ep: usize,
    pub server: bool,
    pub out: Pipe,
    pub inp: Pipe,
}

/// Options tell who is connecting or listening
#[derive(Clone, Debug, Default)]
pub struct MemOpts {
    pub ep: usize,
    pub flavor: Flavor,
    pub untapped: bool,
}

#[derive(Default)]
pub struct Net {
    listeners: HashMap<u64, (mpsc::UnboundedSender<MemStream>, MemOpts)>,
    /// addresses the scenario itself listens at
    pub raw: std::collections::HashSet<u64>,
    pub conns: Vec<Conn>,
    pub sides: usize,
    hidden: usize,
    /// links that appear on behalf of a pool or client are announced with this domain
    pub accept_error: HashMap<u64, usize>,
}

static NET: Mutex<Option<Net>> = Mutex::new(None);

pub fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    let mut g = NET.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(fresh))
}

fn fresh() -> Net {
    Net { hidden: 1_000_000, ..Net::default() }
}

pub fn reset() {
    let old = {
        let mut g = NET.lock().unwrap_or_else(|e| e.into_inner());
        g.replace(fresh())
    };
    drop(old);
}

/// In real time: waits until somebody listens
pub async fn listening(addr: u64) {
    for _ in 0..10_000 {
        if net(|n| n.listeners.contains_key(&addr)) {
            break;
        }
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    }
}

pub fn conn(side: usize) -> Conn {
    net(|n| n.conns.iter().find(|c| c.side == side).cloned()).expect("no such side")
}

pub fn announce(side: usize, ep: usize, server: bool) {
    // each connection of a server has its own requests, the connections of a client
    // (a pool) share them
    let dom = if server { 1000 + side } else { ep };
    log::ev("open", json!({"c": side, "ep": ep, "dom": dom, "held": !server}));
}

/// The scenario connects to a real listener
pub fn raw_connect(addr: u64, flavor: &Flavor) -> Option<usize> {
    let (tx, opts) = net(|n| n.listeners.get(&addr).cloned())?;
    let side = net(|n| {
        n.sides += 1;
        n.sides
    });
    let out = Pipe::new(side, 0, flavor.clone());
    let inp = Pipe::new(0, side, flavor.clone());
    out.lock().untapped = opts.untapped;
    inp.lock().untapped = opts.untapped;
    net(|n| n.conns.push(Conn { side, peer: 0, ep: opts.ep, server: true, out: out.clone(), inp: inp.clone() }));
    announce(side, opts.ep, true);
    tx.send(MemStream { read: MemRead(inp), write: MemWrite(out) }).ok()?;
    Some(side)
}

pub struct MemListener {
    rx: tokio::sync::Mutex<mpsc::UnboundedReceiver<MemStream>>,
    addr: u64,
}

impl Drop for MemListener {
    fn drop(&mut self) {
        net(|n| n.listeners.remove(&self.addr));
    }
}

#[async_trait]
impl AsyncStreamProtocolListener for MemListener {
    type AddressType = u64;
    type RemoteAddressType = u64;
    type Stream = MemStream;
    type ListenerOptions = MemOpts;

    async fn protocol_bind(address: u64, options: MemOpts) -> IPCResult<Self> {
        let (tx, rx) = mpsc::unbounded_channel();
        net(|n| {
            if n.listeners.contains_key(&address) {
                return Err(IPCError::from("address in use"));
            }
            n.listeners.insert(address, (tx, options));
            Ok(())
        })?;
        Ok(MemListener { rx: tokio::sync::Mutex::new(rx), addr: address })
    }

    async fn protocol_accept(&self) -> IPCResult<(MemStream, u64)> {
        let s = self.rx.lock().await.recv().await;
        s.map(|s| (s, 0)).ok_or_else(|| IPCError::from("closed"))
    }
}

#[async_trait]
impl AsyncProtocolStream for MemStream {
    type AddressType = u64;
    type StreamOptions = MemOpts;

    async fn protocol_connect(address: u64, options: MemOpts) -> IPCResult<Self> {
        enum To {
            Raw,
            Real(mpsc::UnboundedSender<MemStream>, MemOpts),
        }
        let to = net(|n| {
            if n.raw.contains(&address) {
                Some(To::Raw)
            } else {
                n.listeners.get(&address).cloned().map(|(a, b)| To::Real(a, b))
            }
        })
        .ok_or_else(|| IPCError::from("nobody listens"))?;
        let (a, b) = net(|n| {
            // what isn't recorded has numbers of its own
            let count = if options.untapped { &mut n.hidden } else { &mut n.sides };
            *count += 1;
            let a = *count;
            let b = match to {
                To::Raw => 0,
                To::Real(..) => {
                    *count += 1;
                    *count
                }
            };
            (a, b)
        });
        let ab = Pipe::new(a, b, options.flavor.clone());
        let ba = Pipe::new(b, a, options.flavor.clone());
        for p in [&ab, &ba] {
            p.lock().untapped = options.untapped;
            p.lock().silent = options.untapped;
        }
        if !options.untapped {
            announce(a, options.ep, false);
        }
        net(|n| n.conns.push(Conn { side: a, peer: b, ep: options.ep, server: false, out: ab.clone(), inp: ba.clone() }));
        if let To::Real(tx, sopts) = to {
            if !options.untapped {
                announce(b, sopts.ep, true);
            }
            net(|n| n.conns.push(Conn { side: b, peer: a, ep: sopts.ep, server: true, out: ba.clone(), inp: ab.clone() }));
            tx.send(MemStream { read: MemRead(ab.clone()), write: MemWrite(ba.clone()) })
                .map_err(|_| IPCError::from("nobody listens"))?;
        }
        Ok(MemStream { read: MemRead(ba), write: MemWrite(ab) })
    }
}
