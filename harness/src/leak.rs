//! Does the same things again and again and measures what is left of it.
use crate::{alloc, core, log, mem};
use bromine::prelude::*;
use core::{num, st};
use futures::StreamExt;
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::time::Duration;

const SLOW: u64 = 50;

fn bytes(n: usize) -> BytePayload {
    BytePayload::new(vec![7; n])
}

struct Bad;
impl IntoPayload for Bad {
    fn into_payload(self, _: &Context) -> IPCResult<bromine::bytes::Bytes> {
        Err("not serializable".into())
    }
}

type Done<'a> = Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>>;

/// Handlers of both sides, named after what they do
fn handler(name: &'static str) -> impl for<'a> Fn(&'a Context, Event) -> Done<'a> + Send + Sync {
    move |ctx, event| {
        Box::pin(async move {
            match name {
                "ok" => ctx.response(bytes(event.data_raw().len())),
                "err" => Err("failed".into()),
                "slow" => {
                    tokio::time::sleep(Duration::from_millis(SLOW)).await;
                    ctx.response(bytes(3))
                }
                "slowerr" => {
                    tokio::time::sleep(Duration::from_millis(SLOW)).await;
                    Err("failed".into())
                }
                "many" => {
                    for _ in 0..3 {
                        ctx.emit("item", bytes(5)).await?;
                    }
                    Ok(Response::empty())
                }
                "manyslow" => {
                    for _ in 0..2 {
                        ctx.emit("item", bytes(5)).await?;
                        tokio::time::sleep(Duration::from_millis(SLOW)).await;
                    }
                    Ok(Response::empty())
                }
                // asks the other side
                "ask" => {
                    let r = ctx.emit("ok", bytes(4)).await_reply().await?;
                    ctx.response(bytes(r.data_raw().len()))
                }
                "askdrop" => {
                    let f = ctx.emit("slow", bytes(4)).await_reply();
                    let _ = tokio::time::timeout(Duration::from_millis(5), f).await;
                    Ok(Response::empty())
                }
                "panic" => panic!("SCENARIO-PANIC"),
                _ => Ok(Response::empty()),
            }
        })
    }
}

fn fill<L: bromine::protocol::AsyncStreamProtocolListener>(mut b: IPCBuilder<L>) -> IPCBuilder<L> {
    b = b.timeout(Duration::from_millis(400));
    for n in ["ok", "err", "slow", "slowerr", "many", "manyslow", "ask", "askdrop", "panic"] {
        b = b.on(n, handler(n));
    }
    b.namespace("ns").on("ok", handler("ok")).on("many", handler("many")).build()
}

fn opts(ep: usize, flavor: &Value) -> mem::MemOpts {
    mem::MemOpts { ep, flavor: core::flavor(flavor), untapped: true }
}

fn builder(ep: usize, flavor: &Value) -> IPCBuilder<mem::MemListener> {
    let o = opts(ep, flavor);
    fill(IPCBuilder::<mem::MemListener>::new().address(1).server_options(o.clone()).client_options(o))
}

/// The encrypted server listens at the address 2.
#[cfg(feature = "full")]
fn secure(ep: usize, flavor: &Value, known: bool) -> IPCBuilder<bromine::prelude::encrypted::EncryptedListener<mem::MemListener>> {
    use bromine::prelude::encrypted::{EncryptedListener, EncryptionOptions, Keys};
    let secret = |i: usize| x25519_dalek::StaticSecret::from([i as u8 + 1; 32]);
    let keys = Keys {
        secret: secret(if known { ep } else { 9 }),
        known_peers: vec![x25519_dalek::PublicKey::from(&secret(if ep == 1 { 3 } else { 1 }))],
        allow_unknown: false,
    };
    let o = EncryptionOptions { inner_options: opts(ep, flavor), keys };
    fill(IPCBuilder::<EncryptedListener<mem::MemListener>>::new().address(2).server_options(o.clone()).client_options(o))
}

/// A name that was never used before
fn fresh(name: &str) -> String {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    format!("{}{:040}", name, N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))
}

/// One request or emission (or whatever else is done with the context); returns how it ended
async fn once(kind: &str, ctx: &Context) -> &'static str {
    let short = Duration::from_millis(10);
    fn what<T>(r: IPCResult<T>) -> &'static str {
        match r {
            Ok(_) => "ok",
            Err(bromine::error::Error::Timeout) => "timeout",
            Err(bromine::error::Error::ErrorEvent(_)) => "event",
            Err(_) => "fail",
        }
    }
    async fn last(mut s: ResponseStream) -> &'static str {
        let mut r = "ok";
        while let Some(i) = s.next().await {
            r = what(i);
            if r == "timeout" {
                break;
            }
        }
        r
    }
    match kind {
        "emit" => what(ctx.emit("ok", bytes(9)).await),
        "emitto" => what(ctx.emit_to("ns", "ok", bytes(9)).await),
        "unhandled" => what(ctx.emit(fresh("nothing"), bytes(9)).await),
        "nowhere" => what(ctx.emit_to(fresh("nowhere"), "ok", bytes(9)).await),
        "emitbad" => what(ctx.emit("ok", Bad).await),
        "req" => what(ctx.emit("ok", bytes(9)).await_reply().await),
        "reqto" => what(ctx.emit_to("ns", "ok", bytes(9)).await_reply().await),
        "requnhandled" => what(ctx.emit(fresh("nothing"), bytes(9)).await_reply().await),
        "reqnowhere" => what(ctx.emit_to(fresh("nowhere"), fresh("x"), bytes(9)).await_reply().await),
        "reqerr" => what(ctx.emit("err", bytes(9)).await_reply().await),
        "reqtimeout" => what(ctx.emit("slow", bytes(9)).await_reply().with_timeout(short).await),
        "reqtimeouterr" => what(ctx.emit("slowerr", bytes(9)).await_reply().with_timeout(short).await),
        "reqbad" => what(ctx.emit("ok", Bad).await_reply().await),
        "reqlong" => what(ctx.emit("x".repeat(70_000), bytes(1)).await_reply().await),
        "reqmany" => what(ctx.emit("many", bytes(9)).await_reply().await),
        "reqask" => what(ctx.emit("ask", bytes(9)).await_reply().await),
        "reqaskdrop" => what(ctx.emit("askdrop", bytes(9)).await_reply().await),
        "reqpanic" => what(ctx.emit("panic", bytes(9)).await_reply().with_timeout(short).await),
        "reqdrop" => match tokio::time::timeout(short, ctx.emit("slow", bytes(9)).await_reply()).await {
            Ok(r) => what(r),
            Err(_) => "dropped",
        },
        "reqnever" => {
            drop(ctx.emit("ok", bytes(9)).await_reply());
            "dropped"
        }
        "reqpolled" => {
            let mut f = Box::pin(ctx.emit("ok", bytes(9)).await_reply());
            let r = futures::poll!(f.as_mut());
            if r.is_ready() {
                "ok"
            } else {
                "dropped"
            }
        }
        "stream" => match ctx.emit("many", bytes(9)).stream_replies().await {
            Ok(s) => last(s).await,
            e => what(e),
        },
        "streamto" => match ctx.emit_to("ns", "many", bytes(9)).stream_replies().await {
            Ok(s) => last(s).await,
            e => what(e),
        },
        "streamerr" => match ctx.emit("err", bytes(9)).stream_replies().await {
            Ok(s) => last(s).await,
            e => what(e),
        },
        "streamtimeout" => match ctx.emit("slow", bytes(9)).stream_replies().with_timeout(short).await {
            Ok(s) => last(s).await,
            e => what(e),
        },
        "streamtimeout2" => match ctx.emit("manyslow", bytes(9)).stream_replies().with_timeout(short).await {
            Ok(s) => last(s).await,
            e => what(e),
        },
        "streambad" => match ctx.emit("ok", Bad).stream_replies().await {
            Ok(s) => last(s).await,
            e => what(e),
        },
        "streamdrop" => match ctx.emit("manyslow", bytes(9)).stream_replies().await {
            Ok(mut s) => {
                s.next().await;
                "dropped"
            }
            e => what(e),
        },
        "streamunread" => match ctx.emit("many", bytes(9)).stream_replies().await {
            Ok(s) => {
                tokio::time::sleep(Duration::from_millis(2)).await;
                drop(s);
                "dropped"
            }
            e => what(e),
        },
        "streamatonce" => match ctx.emit("many", bytes(9)).stream_replies().await {
            Ok(_) => "dropped",
            e => what(e),
        },
        "streamnever" => {
            drop(ctx.emit("many", bytes(9)).stream_replies());
            "dropped"
        }
        "response" => what(ctx.response(bytes(100))),
        "clone" => {
            drop(ctx.clone());
            "ok"
        }
        x => panic!("unknown kind {}", x),
    }
}

struct W {
    ctx: Option<Context>,
    pool: Option<PooledContext>,
    raw: Option<mem::Conn>,
    sent: u64,
}

/// A whole connection
async fn connection(how: &str, flavor: &Value) -> &'static str {
    use crate::frame;
    // the scenario is the peer
    let raw = |addr: u64, data: &[u8]| {
        let side = mem::raw_connect(addr, &core::flavor(flavor)).expect("raw connection");
        let c = mem::conn(side);
        c.inp.lock().push(data);
        c
    };
    let request = |n: &str| frame::Frame { version: [0, 9, 0], id: 7, ty: 0, reference: None, ns: vec![], name: n.as_bytes().to_vec(), extra: vec![], data: vec![1, 2, 3] }.encode();
    let pause = || tokio::time::sleep(Duration::from_millis(2 * SLOW));
    match how {
        "garbage" | "cut" | "silent" | "encgarbage" | "enccut" | "deaf" | "busy" | "encslow" => {
            let c = match how {
                "garbage" => raw(1, &[3; 70]),
                "cut" => raw(1, &request("ok")[..20]),
                "encgarbage" => raw(2, &[9; 300]),
                "encslow" => raw(2, &[1, 2]),
                "enccut" => raw(2, &[0, 0, 0, 32, 1, 2]),
                "silent" => raw(1, &[]),
                "busy" => raw(1, &request("slow")),
                _ => raw(1, &request("many")),
            };
            if how == "deaf" {
                c.out.lock().refuse();
            }
            if how == "encslow" {
                pause().await;
            }
            c.inp.lock().end(how == "deaf");
            pause().await;
            c.out.lock().refuse();
            return "closed";
        }
        #[cfg(feature = "full")]
        "enc" | "encunknown" => {
            return match secure(3, flavor, how == "enc").build_client().await {
                Ok(c) => {
                    let _ = c.emit("ok", bytes(9)).await_reply().await;
                    let _ = c.stop().await;
                    "ok"
                }
                Err(_) => "fail",
            };
        }
        #[cfg(feature = "full")]
        "encabandoned" => {
            let _ = tokio::time::timeout(Duration::from_millis(1), futures::future::poll_immediate(secure(3, flavor, true).build_client())).await;
            return "dropped";
        }
        _ => {}
    }
    let c = match builder(3, flavor).build_client().await {
        Err(_) => return "fail",
        Ok(c) => c,
    };
    let _ = c.emit("ok", bytes(9)).await_reply().await;
    match how {
        "stop" => {
            let _ = c.clone().stop().await;
        }
        // handlers are running
        "inflight" => {
            let _ = c.emit("slow", bytes(1)).await;
            let _ = c.clone().stop().await;
        }
        // requests are waiting
        "pending" => {
            let f = c.emit("slow", bytes(1)).await_reply().with_timeout(Duration::from_millis(20));
            let (a, _) = futures::join!(f, async {
                tokio::task::yield_now().await;
                c.clone().stop().await
            });
            drop(a);
        }
        "stream" => {
            let s = c.emit("manyslow", bytes(1)).stream_replies().await;
            let _ = c.clone().stop().await;
            pause().await;
            drop(s);
        }
        _ => panic!("unknown kind of connection {}", how),
    }
    drop(c);
    "ok"
}

/// The scenario sends an event that refers to one that never existed, or one that is over.
fn stray(kind: &str, c: &mem::Conn, n: u64) {
    let f = crate::frame::Frame {
        version: [0, 9, 0],
        id: n,
        ty: match kind {
            "rawreply" | "rawreplyname" => 1,
            "rawend" | "rawendname" => 2,
            "rawerror" | "rawerrorname" => 3,
            _ => 0,
        },
        reference: Some(if kind.starts_with("rawinitial") { n } else { 1_000_000 + n }),
        ns: if kind == "rawspace" { fresh("ns").into_bytes() } else { vec![] },
        name: if kind.ends_with("name") { fresh("ok").into_bytes() } else { b"ok".to_vec() },
        extra: vec![],
        data: vec![0; 12],
    };
    c.inp.lock().push(&f.encode());
}

async fn step(w: &mut W, s: &Value) {
    match st(s, "do") {
        "server" => {
            tokio::spawn(builder(1, &s["flavor"]).build_server());
            #[cfg(feature = "full")]
            tokio::spawn(secure(1, &s["flavor"], true).build_server());
            for _ in 0..5 {
                tokio::task::yield_now().await;
            }
        }
        "client" => w.ctx = Some(builder(2, &s["flavor"]).build_client().await.expect("client")),
        "pool" => w.pool = Some(builder(2, &s["flavor"]).build_pooled_client(num(s, "n") as usize).await.expect("pool")),
        // the connection does not accept data anymore
        "refuse" => mem::net(|n| n.conns.iter().for_each(|c| c.out.lock().refuse())),
        "raw" => w.raw = mem::raw_connect(1, &core::flavor(&s["flavor"])).map(mem::conn),
        "round" => {
            let n = num(s, "n");
            let par = num(s, "par").max(1);
            let kinds: Vec<String> = s["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
            log::ev("begin", json!({"n": n, "kinds": kinds}));
            let mut outcomes = std::collections::BTreeMap::new();
            let mut left = n;
            while left > 0 {
                let k = left.min(par);
                left -= k;
                let fs = (0..k).map(|i| {
                    let kind = kinds[(left + i) as usize % kinds.len()].clone();
                    let ctx = match (&w.ctx, &w.pool) {
                        (Some(c), _) => Some(c.clone()),
                        (_, Some(p)) => Some((*p.acquire()).clone()),
                        _ => None,
                    };
                    let flavor = s["flavor"].clone();
                    w.sent += 1;
                    if kind.starts_with("raw") {
                        stray(&kind, w.raw.as_ref().expect("raw connection"), w.sent);
                    }
                    async move {
                        if kind.starts_with("raw") {
                            tokio::task::yield_now().await;
                            "sent"
                        } else if kind.starts_with("conn") {
                            connection(kind.trim_start_matches("conn"), &flavor).await
                        } else {
                            once(&kind, &ctx.unwrap()).await
                        }
                    }
                });
                for o in futures::future::join_all(fs).await {
                    *outcomes.entry(o).or_insert(0) += 1;
                }
            }
            log::ev("ended", json!({"n": outcomes.values().sum::<i32>(), "how": outcomes}));
            drop(outcomes);
            drop(kinds);
            // late replies
            tokio::time::sleep(Duration::from_millis(20 * SLOW)).await;
            mem::net(|net| net.conns.retain(|c| c.ep != 3 && !(c.server && c.out.lock().rclosed && c.inp.lock().eof)));
            core::settle().await;
            log::ev("mem", json!({"live": alloc::live(), "warm": s["warm"] == true}));
        }
        x => panic!("unknown step {}", x),
    }
}

pub fn run(i: usize, sc: &Value) {
    mem::reset();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).on_thread_park(core::parked).build().unwrap();
    rt.block_on(async {
        log::begin(i);
        let mut w = W { ctx: None, pool: None, raw: None, sent: 0 };
        for s in sc["steps"].as_array().unwrap() {
            step(&mut w, s).await;
        }
        log::ev("end", json!({}));
        log::end();
    });
    log::end();
    drop(rt);
    mem::reset();
}
