//! Records what the event layer sends and receives over any transport of the library:
//! a listener and a stream that hand everything on to the real ones. What is recorded is
//! the same as for the in-memory transport, so that it can be checked against the same
//! specification. Also the peers the scenario plays itself, over the same transport.
use crate::core::{num, Transport};
use crate::log;
use crate::mem;
use async_trait::async_trait;
use bromine::error::{Error as IPCError, Result as IPCResult};
use bromine::protocol::tcp::TcpOptions;
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
use serde_json::Value;
use std::collections::{HashMap, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use tokio::net::{TcpListener, UnixListener};
use tokio::sync::{mpsc, Notify};

/// One direction of a connection: what was written and what has been read of it
#[derive(Default)]
struct Way {
    written: AtomicU64,
    read: AtomicU64,
    closed: AtomicBool,
    ended: AtomicBool,
    unread: AtomicBool,
}

impl Way {
    fn under_way(&self) -> bool {
        !self.unread.load(Ordering::SeqCst)
            && (self.written.load(Ordering::SeqCst) != self.read.load(Ordering::SeqCst)
                || (self.closed.load(Ordering::SeqCst) && !self.ended.load(Ordering::SeqCst)))
    }
}

#[derive(Clone)]
struct Line {
    /// number of the side, 0 if it's the scenario
    me: usize,
    peer: usize,
    out: Arc<Way>,
    inp: Arc<Way>,
}

#[derive(Default)]
struct Taps {
    /// address -> endpoint that listens there (None: the scenario)
    listeners: HashMap<String, Option<usize>>,
    /// connections that have been made and not been accepted
    queue: HashMap<String, VecDeque<Line>>,
    ways: Vec<Arc<Way>>,
    /// what the scenario writes
    raw: HashMap<usize, mpsc::UnboundedSender<Vec<u8>>>,
    tasks: Vec<tokio::task::JoinHandle<()>>,
}

static TAPS: Mutex<Option<Taps>> = Mutex::new(None);
static QUEUED: Notify = Notify::const_new();
static MOVES: AtomicU64 = AtomicU64::new(0);

fn taps<R>(f: impl FnOnce(&mut Taps) -> R) -> R {
    let mut g = TAPS.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Taps::default))
}

pub fn reset() {
    let old = TAPS.lock().unwrap_or_else(|e| e.into_inner()).take();
    for t in old.iter().flat_map(|o| o.tasks.iter()) {
        t.abort();
    }
    drop(old);
    let _ = std::fs::remove_dir_all(directory());
}

/// How much has happened so far
pub fn moves() -> u64 {
    MOVES.load(Ordering::SeqCst)
}

/// Something was written and can still be read
pub fn under_way() -> bool {
    taps(|t| t.ways.iter().any(|w| w.under_way()))
}

/// The scenario writes to the side with this number
pub fn raw_send(side: usize, b: Vec<u8>) {
    taps(|t| t.raw.get(&side).map(|r| r.send(b)));
}

/// or ends what it writes
pub fn raw_end(side: usize) {
    taps(|t| t.raw.remove(&side));
}

#[derive(Clone, Debug, Default)]
pub struct TapOpts<O> {
    /// endpoint, None: the scenario
    pub ep: Option<usize>,
    pub inner: O,
}

pub struct TapListener<L> {
    inner: L,
    key: String,
}

impl<L> Drop for TapListener<L> {
    fn drop(&mut self) {
        taps(|t| t.listeners.remove(&self.key));
    }
}

pub struct TapStream<S> {
    inner: S,
    line: Line,
}

pub struct TapRead<R> {
    inner: R,
    line: Line,
}

pub struct TapWrite<W> {
    inner: W,
    line: Line,
    dirty: bool,
}

#[async_trait]
impl<L> AsyncStreamProtocolListener for TapListener<L>
where
    L: AsyncStreamProtocolListener,
    L::ListenerOptions: std::fmt::Debug,
    <L::Stream as AsyncProtocolStream>::StreamOptions: std::fmt::Debug,
{
    type AddressType = L::AddressType;
    type RemoteAddressType = L::RemoteAddressType;
    type Stream = TapStream<L::Stream>;
    type ListenerOptions = TapOpts<L::ListenerOptions>;

    async fn protocol_bind(address: Self::AddressType, options: Self::ListenerOptions) -> IPCResult<Self> {
        let key = format!("{:?}", address);
        let inner = L::protocol_bind(address, options.inner).await?;
        taps(|t| t.listeners.insert(key.clone(), options.ep));
        Ok(TapListener { inner, key })
    }

    async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
        let (inner, remote) = self.inner.protocol_accept().await?;
        loop {
            let n = QUEUED.notified();
            if let Some(line) = taps(|t| t.queue.get_mut(&self.key).and_then(|q| q.pop_front())) {
                return Ok((TapStream { inner, line }, remote));
            }
            n.await;
        }
    }
}

#[async_trait]
impl<S> AsyncProtocolStream for TapStream<S>
where
    S: AsyncProtocolStream + 'static,
    S::StreamOptions: std::fmt::Debug,
{
    type AddressType = S::AddressType;
    type StreamOptions = TapOpts<S::StreamOptions>;

    async fn protocol_connect(address: Self::AddressType, options: Self::StreamOptions) -> IPCResult<Self> {
        let key = format!("{:?}", address);
        let inner = S::protocol_connect(address, options.inner).await?;
        let there = taps(|t| t.listeners.get(&key).copied()).ok_or_else(|| IPCError::from("connected to nobody"))?;
        let number = |ep: Option<usize>| match ep {
            None => 0,
            Some(_) => mem::net(|n| {
                n.sides += 1;
                n.sides
            }),
        };
        let (a, b) = (number(options.ep), number(there));
        let (ab, ba): (Arc<Way>, Arc<Way>) = Default::default();
        for (ep, server, side, peer) in [(options.ep, false, a, b), (there, true, b, a)] {
            if let Some(ep) = ep {
                let f = mem::Flavor::default();
                mem::announce(side, ep, server);
                let (out, inp) = (mem::Pipe::new(side, 0, f.clone()), mem::Pipe::new(0, side, f));
                mem::net(|n| n.conns.push(mem::Conn { side, peer, ep, server, out, inp }));
            }
        }
        taps(|t| {
            t.ways.push(ab.clone());
            t.ways.push(ba.clone());
            let other = Line { me: b, peer: a, out: ba.clone(), inp: ab.clone() };
            t.queue.entry(key).or_default().push_back(other);
        });
        QUEUED.notify_waiters();
        Ok(TapStream { inner, line: Line { me: a, peer: b, out: ab, inp: ba } })
    }
}

impl<S: AsyncProtocolStreamSplit> AsyncProtocolStreamSplit for TapStream<S> {
    type OwnedSplitReadHalf = TapRead<S::OwnedSplitReadHalf>;
    type OwnedSplitWriteHalf = TapWrite<S::OwnedSplitWriteHalf>;

    fn protocol_into_split(self) -> (Self::OwnedSplitReadHalf, Self::OwnedSplitWriteHalf) {
        let (r, w) = self.inner.protocol_into_split();
        (TapRead { inner: r, line: self.line.clone() }, TapWrite { inner: w, line: self.line, dirty: false })
    }
}

impl Line {
    fn read(&self, b: &[u8], end: bool) {
        MOVES.fetch_add(1, Ordering::SeqCst);
        self.inp.read.fetch_add(b.len() as u64, Ordering::SeqCst);
        if self.me != 0 {
            let p = mem::conn(self.me).inp;
            let mut p = p.lock();
            p.push(b);
            p.avail.clear();
            if end {
                p.end(false);
            }
        }
        if end {
            self.inp.ended.store(true, Ordering::SeqCst);
        }
    }
    fn wrote(&self, b: &[u8]) {
        MOVES.fetch_add(1, Ordering::SeqCst);
        self.out.written.fetch_add(b.len() as u64, Ordering::SeqCst);
        if self.me != 0 {
            mem::conn(self.me).out.lock().visible(b);
        }
    }
}

impl<R: AsyncRead + Unpin> AsyncRead for TapRead<R> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let n = buf.filled().len();
        let r = Pin::new(&mut self.inner).poll_read(cx, buf);
        match &r {
            Poll::Pending => {}
            Poll::Ready(Ok(())) => self.line.read(&buf.filled()[n..], buf.filled().len() == n),
            Poll::Ready(Err(_)) => self.line.read(&[], true),
        }
        r
    }
}

impl<W: AsyncWrite + Unpin> AsyncWrite for TapWrite<W> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = Pin::new(&mut self.inner).poll_write(cx, buf);
        if let Poll::Ready(Ok(n)) = &r {
            self.dirty = true;
            self.line.wrote(&buf[..*n]);
        }
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let r = Pin::new(&mut self.inner).poll_flush(cx);
        if let (Poll::Ready(Ok(())), true) = (&r, self.dirty) {
            self.dirty = false;
            MOVES.fetch_add(1, Ordering::SeqCst);
            if self.line.me != 0 {
                log::ev("fl", serde_json::json!({"c": self.line.me}));
            }
        }
        r
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.inner).poll_shutdown(cx)
    }
}

impl<R> Drop for TapRead<R> {
    fn drop(&mut self) {
        MOVES.fetch_add(1, Ordering::SeqCst);
        self.line.inp.unread.store(true, Ordering::SeqCst);
        if self.line.me != 0 {
            log::ev("rdrop", serde_json::json!({"c": self.line.me}));
        }
        if self.line.peer != 0 {
            log::ev("set", serde_json::json!({"c": self.line.peer, "field": "wc", "v": true}));
            log::ev("set", serde_json::json!({"c": self.line.peer, "field": "lossy", "v": true}));
        }
    }
}

impl<W> Drop for TapWrite<W> {
    fn drop(&mut self) {
        MOVES.fetch_add(1, Ordering::SeqCst);
        self.line.out.closed.store(true, Ordering::SeqCst);
        if self.line.me != 0 {
            log::ev("wdrop", serde_json::json!({"c": self.line.me}));
        }
    }
}

impl<S: AsyncRead + Unpin> AsyncRead for TapStream<S> {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        panic!("streams are always split")
    }
}

impl<S: AsyncWrite + Unpin> AsyncWrite for TapStream<S> {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> {
        panic!("streams are always split")
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        panic!("streams are always split")
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        panic!("streams are always split")
    }
}

/// The scenario talks over this connection.
fn play<S: AsyncProtocolStream>(s: TapStream<S>) -> usize {
    let side = s.line.peer;
    let (mut r, mut w) = s.protocol_into_split();
    let (tx, mut rx) = mpsc::unbounded_channel::<Vec<u8>>();
    let reader = tokio::spawn(async move {
        let mut b = [0u8; 4096];
        while matches!(r.read(&mut b).await, Ok(n) if n > 0) {}
    });
    let writer = tokio::spawn(async move {
        while let Some(b) = rx.recv().await {
            if w.write_all(&b).await.is_err() || w.flush().await.is_err() {
                break;
            }
        }
        let _ = w.shutdown().await;
    });
    taps(|t| {
        t.raw.insert(side, tx);
        t.tasks.push(reader);
        t.tasks.push(writer);
    });
    side
}

/// Transports by the way they are set up
pub trait Kind: 'static + Send + Sync {
    type L: AsyncStreamProtocolListener<AddressType = Self::A, ListenerOptions = Self::SO, Stream = Self::S> + 'static;
    type S: AsyncProtocolStream<AddressType = Self::A, StreamOptions = Self::CO> + 'static;
    type A: Clone + std::fmt::Debug + Send + Sync + 'static;
    type SO: Clone + Default + Send + Sync + std::fmt::Debug + 'static;
    type CO: Clone + Default + Send + Sync + std::fmt::Debug + 'static;
    const REAL: bool;
    fn address(n: u64) -> Self::A;
    fn server(ep: &Value) -> Self::SO;
    fn client(ep: &Value) -> Self::CO;
}

pub struct Tapped<K>(std::marker::PhantomData<K>);

impl<K: Kind> Transport for Tapped<K> {
    type L = TapListener<K::L>;
    type A = K::A;
    const REAL: bool = K::REAL;
    const TAP: bool = true;
    fn address(addr: u64) -> K::A {
        K::address(addr)
    }
    fn server_options(ep: &Value) -> TapOpts<K::SO> {
        TapOpts { ep: Some(num(ep, "ep") as usize), inner: K::server(ep) }
    }
    fn client_options(ep: &Value) -> TapOpts<K::CO> {
        TapOpts { ep: Some(num(ep, "ep") as usize), inner: K::client(ep) }
    }
    fn raw_connect(addr: u64, step: Value) -> Pin<Box<dyn std::future::Future<Output = Option<usize>> + Send>> {
        Box::pin(async move {
            let o = TapOpts { ep: None, inner: K::client(&step) };
            TapStream::<K::S>::protocol_connect(K::address(addr), o).await.ok().map(play)
        })
    }
    fn raw_listen(addr: u64) -> Pin<Box<dyn std::future::Future<Output = ()> + Send>> {
        Box::pin(async move {
            let o = TapOpts { ep: None, inner: K::server(&Value::Null) };
            let l = TapListener::<K::L>::protocol_bind(K::address(addr), o).await.expect("listen");
            let t = tokio::spawn(async move {
                while let Ok((s, _)) = l.protocol_accept().await {
                    play(s);
                }
            });
            taps(|x| x.tasks.push(t));
        })
    }
}

/// Nobody else uses these addresses.
pub fn loopback() -> IpAddr {
    static IP: std::sync::OnceLock<IpAddr> = std::sync::OnceLock::new();
    *IP.get_or_init(|| {
        let p = std::process::id();
        let ip = IpAddr::V4(Ipv4Addr::new(127, 1 + (p / 62500 % 250) as u8, (p / 250 % 250) as u8, 1 + (p % 250) as u8));
        match std::net::TcpListener::bind((ip, 0)) {
            Ok(_) => ip,
            Err(_) => IpAddr::V4(Ipv4Addr::LOCALHOST),
        }
    })
}

static RUNS: AtomicU64 = AtomicU64::new(0);

/// Addresses are not used again by the next scenario.
pub fn next_run() {
    RUNS.fetch_add(1, Ordering::SeqCst);
}

pub fn port(n: u64) -> u16 {
    if loopback() == IpAddr::V4(Ipv4Addr::LOCALHOST) {
        // as good as it gets
        return 10000 + ((std::process::id() as u64 * 311 + RUNS.load(Ordering::SeqCst) * 7 + n) % 20000) as u16;
    }
    10000 + ((RUNS.load(Ordering::SeqCst) * 64 + n) % 20000) as u16
}

pub fn directory() -> PathBuf {
    std::env::temp_dir().join(format!("bromine-harness-{}", std::process::id()))
}

pub fn socket(n: u64) -> PathBuf {
    let d = directory();
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("s{}-{}", RUNS.load(Ordering::SeqCst), n))
}

pub struct Tcp;
impl Kind for Tcp {
    type L = TcpListener;
    type S = tokio::net::TcpStream;
    type A = SocketAddr;
    type SO = TcpOptions;
    type CO = TcpOptions;
    const REAL: bool = true;
    fn address(n: u64) -> SocketAddr {
        SocketAddr::new(loopback(), port(n))
    }
    fn server(ep: &Value) -> TcpOptions {
        TcpOptions { ttl: ep["ttl"].as_u64().map(|t| t as u32) }
    }
    fn client(ep: &Value) -> TcpOptions {
        Self::server(ep)
    }
}

pub struct Unix;
impl Kind for Unix {
    type L = UnixListener;
    type S = tokio::net::UnixStream;
    type A = PathBuf;
    type SO = ();
    type CO = ();
    const REAL: bool = true;
    fn address(n: u64) -> PathBuf {
        socket(n)
    }
    fn server(_: &Value) {}
    fn client(_: &Value) {}
}

#[cfg(feature = "full")]
pub use secure::*;

#[cfg(feature = "full")]
mod secure {
    use super::*;
    use crate::core::flavor;
    use bromine::prelude::encrypted::{EncryptedListener, EncryptedStream, EncryptionOptions, Keys};
    use x25519_dalek::{PublicKey, StaticSecret};

    /// The options of the encryption layer can't be printed
    #[derive(Clone, Default)]
    pub struct Opts<O: Clone + Default>(pub EncryptionOptions<O>);

    impl<O: Clone + Default> std::fmt::Debug for Opts<O> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Opts")
        }
    }

    /// Only exists because of these options
    pub struct SecListener<L>(L);

    #[async_trait]
    impl<L: AsyncStreamProtocolListener> AsyncStreamProtocolListener for SecListener<EncryptedListener<L>>
    where
        EncryptedListener<L>: AsyncStreamProtocolListener<
            AddressType = L::AddressType,
            ListenerOptions = EncryptionOptions<L::ListenerOptions>,
            Stream = EncryptedStream<L::Stream>,
        >,
        EncryptedStream<L::Stream>: AsyncProtocolStream<
            AddressType = L::AddressType,
            StreamOptions = EncryptionOptions<<L::Stream as AsyncProtocolStream>::StreamOptions>,
        >,
    {
        type AddressType = L::AddressType;
        type RemoteAddressType = <EncryptedListener<L> as AsyncStreamProtocolListener>::RemoteAddressType;
        type Stream = SecStream<EncryptedStream<L::Stream>>;
        type ListenerOptions = Opts<L::ListenerOptions>;

        async fn protocol_bind(address: Self::AddressType, options: Self::ListenerOptions) -> IPCResult<Self> {
            Ok(SecListener(EncryptedListener::<L>::protocol_bind(address, options.0).await?))
        }
        async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
            let (s, r) = self.0.protocol_accept().await?;
            Ok((SecStream(s), r))
        }
    }

    pub struct SecStream<S>(S);

    #[async_trait]
    impl<S: AsyncProtocolStream + 'static> AsyncProtocolStream for SecStream<EncryptedStream<S>>
    where
        EncryptedStream<S>:
            AsyncProtocolStream<AddressType = S::AddressType, StreamOptions = EncryptionOptions<S::StreamOptions>>,
    {
        type AddressType = S::AddressType;
        type StreamOptions = Opts<S::StreamOptions>;
        async fn protocol_connect(address: Self::AddressType, options: Self::StreamOptions) -> IPCResult<Self> {
            Ok(SecStream(EncryptedStream::<S>::protocol_connect(address, options.0).await?))
        }
    }

    impl<S: AsyncProtocolStreamSplit> AsyncProtocolStreamSplit for SecStream<S> {
        type OwnedSplitReadHalf = S::OwnedSplitReadHalf;
        type OwnedSplitWriteHalf = S::OwnedSplitWriteHalf;
        fn protocol_into_split(self) -> (Self::OwnedSplitReadHalf, Self::OwnedSplitWriteHalf) {
            self.0.protocol_into_split()
        }
    }

    impl<S: AsyncRead + Unpin> AsyncRead for SecStream<S> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_read(cx, b)
        }
    }

    impl<S: AsyncWrite + Unpin> AsyncWrite for SecStream<S> {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut self.0).poll_write(cx, b)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_flush(cx)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_shutdown(cx)
        }
    }

    fn secret(n: u8) -> StaticSecret {
        StaticSecret::from([n; 32])
    }

    /// Servers are identity 1, clients 2, they know each other
    pub fn keys<O: Clone + Default>(server: bool, inner_options: O) -> EncryptionOptions<O> {
        let (me, other) = if server { (1, 2) } else { (2, 1) };
        EncryptionOptions {
            inner_options,
            keys: Keys {
                secret: secret(me),
                known_peers: vec![PublicKey::from(&secret(other))],
                allow_unknown: false,
            },
        }
    }

    /// The encryption layer over another transport
    pub struct Enc<K>(std::marker::PhantomData<K>);

    impl<K: Kind> Kind for Enc<K> {
        type L = SecListener<EncryptedListener<K::L>>;
        type S = SecStream<EncryptedStream<K::S>>;
        type A = K::A;
        type SO = Opts<K::SO>;
        type CO = Opts<K::CO>;
        const REAL: bool = K::REAL;
        fn address(n: u64) -> K::A {
            K::address(n)
        }
        fn server(ep: &Value) -> Opts<K::SO> {
            Opts(keys(true, K::server(ep)))
        }
        fn client(ep: &Value) -> Opts<K::CO> {
            Opts(keys(false, K::client(ep)))
        }
    }

    /// The in-memory transport, only to carry encrypted data
    pub struct Carrier;
    impl Kind for Carrier {
        type L = mem::MemListener;
        type S = mem::MemStream;
        type A = u64;
        type SO = mem::MemOpts;
        type CO = mem::MemOpts;
        const REAL: bool = false;
        fn address(n: u64) -> u64 {
            n
        }
        fn server(ep: &Value) -> mem::MemOpts {
            mem::MemOpts { ep: 1_000_000, flavor: flavor(&ep["flavor"]), untapped: true }
        }
        fn client(ep: &Value) -> mem::MemOpts {
            Self::server(ep)
        }
    }
}

