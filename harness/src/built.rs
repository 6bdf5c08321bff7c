//! Builds servers, clients and pools in every way and records what came of it.
use crate::core::{num, quiet, st};
use crate::log;
use crate::mem;
use crate::tap::{self, Kind};
use async_trait::async_trait;
use bromine::error::{Error, Result as IPCResult};
use bromine::prelude::*;
use bromine::protocol::tcp::TcpOptions;
use bromine::protocol::{AsyncProtocolStream, AsyncStreamProtocolListener};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::Mutex;
use std::time::Duration;
use tokio::net::{TcpListener, TcpStream};

/// TCP, and what it does to the sockets
pub struct ProbeListener(TcpListener, i64);

#[derive(Clone, Debug, Default)]
pub struct ProbeOpts {
    who: i64,
    inner: TcpOptions,
}

fn socket(who: i64, what: &str, ttl: std::io::Result<u32>) {
    let v = ttl.map(|t| t as i64).unwrap_or(-1);
    log::ev("sock", json!({"n": who, "what": what, "ttl": v}));
}

#[async_trait]
impl AsyncStreamProtocolListener for ProbeListener {
    type AddressType = SocketAddr;
    type RemoteAddressType = SocketAddr;
    type Stream = TcpStreamProbe;
    type ListenerOptions = ProbeOpts;
    async fn protocol_bind(address: SocketAddr, options: ProbeOpts) -> IPCResult<Self> {
        let l = <TcpListener as AsyncStreamProtocolListener>::protocol_bind(address, options.inner).await?;
        socket(options.who, "listener", l.ttl());
        Ok(ProbeListener(l, options.who))
    }
    async fn protocol_accept(&self) -> IPCResult<(TcpStreamProbe, SocketAddr)> {
        let (s, a) = self.0.protocol_accept().await?;
        socket(self.1, "accepted", s.ttl());
        Ok((TcpStreamProbe(s), a))
    }
}

pub struct TcpStreamProbe(TcpStream);

#[async_trait]
impl AsyncProtocolStream for TcpStreamProbe {
    type AddressType = SocketAddr;
    type StreamOptions = ProbeOpts;
    async fn protocol_connect(address: SocketAddr, options: ProbeOpts) -> IPCResult<Self> {
        let s = <TcpStream as AsyncProtocolStream>::protocol_connect(address, options.inner).await?;
        socket(options.who, "connected", s.ttl());
        Ok(TcpStreamProbe(s))
    }
}

impl bromine::protocol::AsyncProtocolStreamSplit for TcpStreamProbe {
    type OwnedSplitReadHalf = tokio::net::tcp::OwnedReadHalf;
    type OwnedSplitWriteHalf = tokio::net::tcp::OwnedWriteHalf;
    fn protocol_into_split(self) -> (Self::OwnedSplitReadHalf, Self::OwnedSplitWriteHalf) {
        bromine::protocol::AsyncProtocolStreamSplit::protocol_into_split(self.0)
    }
}

mod io {
    use super::TcpStreamProbe;
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
    impl AsyncRead for TcpStreamProbe {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_read(cx, b)
        }
    }
    impl AsyncWrite for TcpStreamProbe {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut self.0).poll_write(cx, b)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_flush(cx)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_shutdown(cx)
        }
    }
}

struct Probed;
impl Kind for Probed {
    type L = ProbeListener;
    type S = TcpStreamProbe;
    type A = SocketAddr;
    type SO = ProbeOpts;
    type CO = ProbeOpts;
    const REAL: bool = true;
    fn address(n: u64) -> SocketAddr {
        tap::Tcp::address(n)
    }
    fn server(s: &Value) -> ProbeOpts {
        ProbeOpts { who: num(s, "n") as i64, inner: TcpOptions { ttl: s["ttl"].as_u64().map(|t| t as u32) } }
    }
    fn client(s: &Value) -> ProbeOpts {
        Self::server(s)
    }
}

struct InMemory;
impl Kind for InMemory {
    type L = mem::MemListener;
    type S = mem::MemStream;
    type A = u64;
    type SO = mem::MemOpts;
    type CO = mem::MemOpts;
    const REAL: bool = true;
    fn address(n: u64) -> u64 {
        n
    }
    fn server(_: &Value) -> mem::MemOpts {
        mem::MemOpts { ep: 1_000_000, untapped: true, ..Default::default() }
    }
    fn client(s: &Value) -> mem::MemOpts {
        Self::server(s)
    }
}

enum End {
    Server(tokio::task::JoinHandle<()>),
    Client(Context),
    Pool(PooledContext),
}

static ENDS: Mutex<Option<HashMap<u64, End>>> = Mutex::new(None);

fn ends<R>(f: impl FnOnce(&mut HashMap<u64, End>) -> R) -> R {
    f(ENDS.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new))
}

fn kind_of(e: &Error) -> &'static str {
    match e {
        Error::BuildError(_) => "build",
        Error::IoError(_) => "io",
        _ => "other",
    }
}

async fn attempt<K: Kind>(s: &Value) {
    let n = num(s, "n");
    let a = num(s, "a");
    let mut b = IPCBuilder::<K::L>::new().on("who", move |ctx, _| {
        Box::pin(async move { ctx.response(BytePayload::new(n.to_string().into_bytes())) })
    });
    if st(s, "do") == "server" {
        b = b.server_options(K::server(s));
    } else {
        b = b.client_options(K::client(s));
    }
    if a != 0 {
        b = b.address(K::address(a));
    }
    let mut v = json!({"n": n, "tr": st(s, "tr"), "a": a, "size": s["size"].as_u64().unwrap_or(1), "ttl": s["ttl"].as_i64().unwrap_or(-1),
                       "kind": st(s, "do"), "r": ""});
    log::ev("try", v.clone());
    let (r, end) = match st(s, "do") {
        "server" => {
            let (tx, rx) = std::sync::mpsc::channel();
            let j = tokio::spawn(async move {
                let r = b.build_server().await;
                let _ = tx.send(match r {
                    Ok(()) => "over",
                    Err(e) => kind_of(&e),
                });
            });
            tokio::time::sleep(Duration::from_millis(2)).await;
            quiet().await;
            match rx.try_recv() {
                Ok(r) => (r, None),
                Err(_) => ("up", Some(End::Server(j))),
            }
        }
        "client" => match b.build_client().await {
            Ok(c) => ("up", Some(End::Client(c))),
            Err(e) => (kind_of(&e), None),
        },
        _ => match b.build_pooled_client(num(s, "size") as usize).await {
            Ok(c) => ("up", Some(End::Pool(c))),
            Err(e) => (kind_of(&e), None),
        },
    };
    v["r"] = json!(r);
    log::ev("built", v);
    if let Some(e) = end {
        ends(|m| m.insert(n, e));
    }
}

async fn ask(s: &Value) {
    let n = num(s, "n");
    let ctx = ends(|m| match m.get(&n) {
        Some(End::Client(c)) => Some(c.clone()),
        Some(End::Pool(p)) => Some((*p.acquire()).clone()),
        _ => None,
    });
    if let Some(c) = ctx {
        let r = c.emit("who", ()).await_reply().with_timeout(Duration::from_secs(10)).await;
        let who: i64 = match r {
            Ok(e) => String::from_utf8_lossy(e.data_raw()).parse().unwrap_or(-2),
            Err(_) => -1,
        };
        log::ev("who", json!({"n": n, "who": who}));
    }
}

async fn step(s: &Value) {
    match st(s, "do") {
        "server" | "client" | "pool" => match st(s, "tr") {
            "tcp" => attempt::<Probed>(s).await,
            "unix" => attempt::<tap::Unix>(s).await,
            "mem" => attempt::<InMemory>(s).await,
            #[cfg(feature = "full")]
            "enctcp" => attempt::<tap::Enc<Probed>>(s).await,
            #[cfg(feature = "full")]
            "encunix" => attempt::<tap::Enc<tap::Unix>>(s).await,
            #[cfg(feature = "full")]
            "enc" => attempt::<tap::Enc<InMemory>>(s).await,
            t => panic!("unknown transport {}", t),
        },
        "ask" => ask(s).await,
        "down" => {
            let old = ends(|m| m.remove(&num(s, "n")));
            if let Some(End::Server(j)) = old {
                // every connection has been accepted
                tokio::time::sleep(Duration::from_millis(5)).await;
                quiet().await;
                j.abort();
                let _ = j.await;
                log::ev("down", json!({"n": num(s, "n")}));
            }
        }
        // something that isn't a socket is at the address
        "file" => {
            std::fs::write(tap::socket(num(s, "a")), b"precious").expect("file");
            log::ev("file", json!({"a": num(s, "a")}));
        }
        "look" => {
            let ok = std::fs::read(tap::socket(num(s, "a"))).map(|b| b == b"precious").unwrap_or(false);
            log::ev("look", json!({"a": num(s, "a"), "ok": ok}));
        }
        o => panic!("unknown step {}", o),
    }
}

fn reset() {
    let old = ENDS.lock().unwrap_or_else(|e| e.into_inner()).take();
    drop(old);
    mem::reset();
    tap::reset();
    tap::next_run();
}

pub fn run(i: usize, sc: &Value) {
    reset();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().on_thread_park(crate::core::parked).build().unwrap();
    rt.block_on(async {
        log::begin(i);
        let l = TcpListener::bind((tap::loopback(), 0)).await.expect("bind");
        log::ev("default", json!({"ttl": l.ttl().unwrap_or(0)}));
        drop(l);
        for s in sc["steps"].as_array().unwrap() {
            step(s).await;
        }
        log::ev("end", json!({}));
        log::end();
    });
    drop(rt);
    reset();
}
