//! The data shared by the handlers and contexts of an endpoint. Every access is recorded while
//! its lock is held.
use crate::{core, log, mem};
use bromine::prelude::*;
use core::{num, st};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Duration;
use trait_bound_typemap::{SendSyncTypeMap, TypeMapKey};

macro_rules! keys {
    ($($k:ident),*) => { $( struct $k; impl TypeMapKey for $k { type Value = i64; } )* };
}
keys!(K1, K2, K3);

const ABSENT: i64 = -999_999;

fn get(d: &SendSyncTypeMap, k: u64) -> i64 {
    match k {
        1 => d.get::<K1>(),
        2 => d.get::<K2>(),
        _ => d.get::<K3>(),
    }
    .copied()
    .unwrap_or(ABSENT)
}

fn set(d: &mut SendSyncTypeMap, k: u64, v: i64) {
    if v == ABSENT {
        match k {
            1 => drop(d.remove::<K1>()),
            2 => drop(d.remove::<K2>()),
            _ => drop(d.remove::<K3>()),
        }
        return;
    }
    match k {
        1 => drop(d.insert::<K1>(v)),
        2 => drop(d.insert::<K2>(v)),
        _ => drop(d.insert::<K3>(v)),
    }
}

static PENDING: AtomicI64 = AtomicI64::new(0);

/// What is done with a context: [["rd", k], ["up", k, delta, yields], ["set", k, v], ["fwd", ns, access]]
fn access<'a>(g: u64, ctx: &'a Context, acc: Value) -> Pin<Box<dyn Future<Output = ()> + Send + 'a>> {
    Box::pin(async move {
        for o in acc["ops"].as_array().unwrap() {
            let k = o[1].as_u64().unwrap_or(0);
            match o[0].as_str().unwrap() {
                "rd" => {
                    let d = ctx.data.read().await;
                    let v = get(&d, k);
                    for _ in 0..o[2].as_u64().unwrap_or(0) {
                        tokio::task::yield_now().await;
                    }
                    // still the same
                    log::ev("rd", json!({"g": g, "k": k, "v": v}));
                    log::ev("rd", json!({"g": g, "k": k, "v": get(&d, k)}));
                }
                "up" => {
                    let mut d = ctx.data.write().await;
                    let v = get(&d, k);
                    for _ in 0..o[3].as_u64().unwrap_or(0) {
                        tokio::task::yield_now().await;
                    }
                    let new = if v == ABSENT { 0 } else { v } + o[2].as_i64().unwrap();
                    set(&mut d, k, new);
                    log::ev("up", json!({"g": g, "k": k, "old": v, "new": new}));
                }
                "set" => {
                    let mut d = ctx.data.write().await;
                    let v = get(&d, k);
                    let new = o[2].as_i64().unwrap_or(ABSENT);
                    set(&mut d, k, new);
                    log::ev("up", json!({"g": g, "k": k, "old": v, "new": new}));
                }
                // have the peer do something
                "fwd" => send(ctx, o[1].as_str().unwrap(), &o[2]).await,
                x => panic!("unknown access {}", x),
            }
        }
        log::ev("fin", json!({"a": num(&acc, "a")}));
        PENDING.fetch_sub(1, Ordering::SeqCst);
    })
}

async fn send(ctx: &Context, ns: &str, acc: &Value) {
    log::ev("acc", json!({"a": num(acc, "a")}));
    PENDING.fetch_add(1, Ordering::SeqCst);
    let p = BytePayload::new(acc.to_string().into_bytes());
    let r = if ns.is_empty() { ctx.emit("st", p).await } else { ctx.emit_to(ns, "st", p).await };
    if let Err(e) = r {
        log::ev("sendfail", json!({"err": format!("{:?}", e)}));
    }
}

fn handler(g: u64) -> impl for<'a> Fn(&'a Context, Event) -> Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>> + Send + Sync {
    move |ctx, event| {
        Box::pin(async move {
            let acc = serde_json::from_slice(event.data_raw()).expect("access");
            access(g, ctx, acc).await;
            Ok(Response::empty())
        })
    }
}

struct Spaced;
impl NamespaceProvider for Spaced {
    fn name() -> &'static str {
        "p"
    }
    fn register(_: &mut EventHandler) {}
}

fn builder(ep: &Value) -> IPCBuilder<mem::MemListener> {
    let g = num(ep, "ep");
    let mut b = IPCBuilder::<mem::MemListener>::new().address(num(ep, "addr"));
    for s in ep["build"].as_array().unwrap() {
        b = match s[0].as_str().unwrap() {
            "on" => b.on("st", handler(g)),
            "ns" => b.namespace(s[1].as_str().unwrap()).on("st", handler(g)).build(),
            "addns" => {
                let mut h = EventHandler::new();
                h.on("st", handler(g));
                b.add_namespace(Namespace::new(s[1].as_str().unwrap(), h))
            }
            "provider" => b.add_namespace(Namespace::from_provider::<Spaced>()),
            "ins" => {
                let v = s[2].as_i64().unwrap();
                match s[1].as_u64().unwrap() {
                    1 => b.insert::<K1>(v),
                    2 => b.insert::<K2>(v),
                    _ => b.insert::<K3>(v),
                }
            }
            "all" => {
                let mut m = SendSyncTypeMap::new();
                for x in s[1].as_array().unwrap() {
                    set(&mut m, x[0].as_u64().unwrap(), x[1].as_i64().unwrap());
                }
                b.insert_all(m)
            }
            "timeout" => b.timeout(Duration::from_millis(s[1].as_u64().unwrap())),
            x => panic!("unknown call {}", x),
        };
    }
    b
}

#[derive(Default)]
struct W {
    clients: HashMap<u64, Context>,
    pools: HashMap<u64, PooledContext>,
    kept: Vec<PoolGuard<Context>>,
}

async fn settle(mt: bool) {
    if mt {
        let mut n = 0;
        while PENDING.load(Ordering::SeqCst) > 0 && n < 5000 {
            tokio::time::sleep(Duration::from_millis(2)).await;
            n += 1;
        }
        log::ev("idle", json!({}));
    } else {
        core::settle().await;
    }
}

async fn step(w: &mut W, s: &Value, mt: bool) {
    match st(s, "do") {
        "start" => {
            let b = builder(s);
            log::ev("build", json!({"g": num(s, "ep"), "ins": s["ins"]}));
            match st(s, "kind") {
                "server" => {
                    tokio::spawn(b.build_server());
                    for _ in 0..20 {
                        tokio::task::yield_now().await;
                    }
                    if mt {
                        mem::listening(num(s, "addr")).await;
                    }
                }
                "client" => {
                    w.clients.insert(num(s, "ep"), b.build_client().await.expect("client"));
                }
                _ => {
                    w.pools.insert(num(s, "ep"), b.build_pooled_client(num(s, "n") as usize).await.expect("pool"));
                }
            }
        }
        k @ ("acc" | "send") => {
            let ep = num(s, "ep");
            let ctx = match (w.clients.get(&ep), w.pools.get(&ep)) {
                (Some(c), _) => c.clone(),
                (_, Some(p)) => {
                    let g = p.acquire();
                    let c = (*g).clone();
                    if s["keep"].as_bool().unwrap_or(false) {
                        w.kept.push(g);
                    }
                    c
                }
                _ => panic!("no such context"),
            };
            let a = s["acc"].clone();
            if k == "send" {
                send(&ctx, st(s, "ns"), &a).await;
            } else {
                log::ev("acc", json!({"a": num(&a, "a")}));
                PENDING.fetch_add(1, Ordering::SeqCst);
                tokio::spawn(async move { access(ep, &ctx, a).await });
            }
        }
        "yield" => tokio::task::yield_now().await,
        "settle" => settle(mt).await,
        x => panic!("unknown step {}", x),
    }
}

pub fn run(i: usize, sc: &Value) {
    mem::reset();
    PENDING.store(0, Ordering::SeqCst);
    let mt = sc["mt"].as_bool().unwrap_or(false);
    let rt = if mt {
        tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).on_thread_park(core::parked).build().unwrap()
    };
    rt.block_on(async {
        log::begin(i);
        let mut w = W::default();
        for s in sc["steps"].as_array().unwrap() {
            step(&mut w, s, mt).await;
        }
        log::ev("end", json!({}));
        log::end();
    });
    log::end();
    drop(rt);
    mem::reset();
}
