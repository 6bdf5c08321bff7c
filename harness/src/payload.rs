//! Payload wrappers: what they are turned into and what is made of it again.
use crate::{core, log, mem};
use bromine::error::Error;
use bromine::error_event::ErrorEventData;
use bromine::event::Event;
use bromine::prelude::*;
use core::{num, st};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Read;

#[derive(Serialize, Deserialize, Clone)]
struct Rec {
    id: u32,
    name: String,
    tags: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone)]
enum En {
    A,
    B(u32),
    C { x: bool },
}

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("utf8")
}

/// One variant per type that is sent
macro_rules! values {
    ($($t:literal $ty:ty: $from:expr, $to:expr);* $(;)?) => {
        fn encode_serde(fmt: Option<DynamicSerializer>, v: &Value, ctx: &Context) -> IPCResult<bromine::bytes::Bytes> {
            match st(v, "t") {
                $($t => {
                    let f: fn(&Value) -> $ty = $from;
                    let x = f(v);
                    match fmt {
                        Some(s) => {
                            let p = SerdePayload::new(s, x);
                            if v["clone"].as_bool() == Some(true) {
                                let q = p.clone();
                                drop(p);
                                q.try_into_bytes()
                            } else {
                                p.into_payload(ctx)
                            }
                        }
                        None if v["clone"].as_bool() == Some(true) => ctx.create_serde_payload(x).into_payload(ctx),
                        None => IntoPayload::into_payload(x, ctx),
                    }
                })*
                t => panic!("unknown type {}", t),
            }
        }
        fn decode_serde<R: Read>(t: &str, wrapped: bool, r: R) -> IPCResult<Value> {
            match t {
                $($t => {
                    let x: $ty = if wrapped { SerdePayload::<$ty>::from_payload(r)?.data() } else { <$ty as FromPayload>::from_payload(r)? };
                    let f: fn($ty) -> Value = $to;
                    let mut v = f(x);
                    v["t"] = json!($t);
                    Ok(v)
                })*
                t => panic!("unknown type {}", t),
            }
        }
    };
}

fn list(v: &Value) -> Vec<Vec<u8>> {
    v.as_array().unwrap().iter().map(bytes).collect()
}

values! {
    "u" u32: |v| num(v, "u") as u32, |x| json!({"u": x});
    "s" String: |v| text(&v["s"]), |x| json!({"s": x.into_bytes()});
    "b" bool: |v| v["b"].as_bool().unwrap(), |x| json!({"b": x});
    "l" Vec<u32>: |v| v["l"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(), |x| json!({"l": x});
    "o" Option<String>: |v| v["o"].as_array().unwrap().first().map(text), |x| json!({"o": x.into_iter().map(|s| s.into_bytes()).collect::<Vec<_>>()});
    "t" (u32, bool): |v| (num(v, "u") as u32, v["b"].as_bool().unwrap()), |x| json!({"u": x.0, "b": x.1});
    "r" Rec: |v| Rec {
        id: num(v, "u") as u32,
        name: text(&v["s"]),
        tags: list(&v["tags"]).into_iter().map(|b| String::from_utf8(b).unwrap()).collect(),
    }, |x| json!({"u": x.id, "s": x.name.into_bytes(), "tags": x.tags.into_iter().map(|s| s.into_bytes()).collect::<Vec<_>>()});
    "e" En: |v| match st(v, "e") {
        "A" => En::A,
        "B" => En::B(num(v, "u") as u32),
        _ => En::C { x: num(v, "u") == 1 },
    }, |x| match x {
        En::A => json!({"e": "A", "u": 0}),
        En::B(u) => json!({"e": "B", "u": u}),
        En::C { x } => json!({"e": "C", "u": x as u32}),
    };
    "n" (): |_| (), |_| json!({});
}

fn format(n: u64) -> DynamicSerializer {
    match n {
        0 => DynamicSerializer::Messagepack,
        1 => DynamicSerializer::Bincode,
        2 => DynamicSerializer::Postcard,
        _ => DynamicSerializer::Json,
    }
}

/// A payload as described by the scenario
struct Dyn(Value);

impl IntoPayload for Dyn {
    fn into_payload(self, ctx: &Context) -> IPCResult<bromine::bytes::Bytes> {
        let p = self.0;
        match st(&p, "k") {
            "byte" if p["b"].as_array().unwrap().len() % 2 == 0 => BytePayload::new(bytes(&p["b"])).into_payload(ctx),
            "byte" => BytePayload::from(bromine::bytes::Bytes::from(bytes(&p["b"]))).into_payload(ctx),
            "err" => ErrorEventData { code: num(&p, "code") as u16, message: text(&p["msg"]) }.into_payload(ctx),
            "serde" => encode_serde(Some(format(num(&p, "fmt"))), &p["v"], ctx),
            "plain" => encode_serde(None, &p["v"], ctx),
            _ => TandemPayload::new(Dyn(p["l"].clone()), Dyn(p["r"].clone())).into_payload(ctx),
        }
    }
}

thread_local! {
    /// What the payloads that are being decoded should be
    static SHAPES: RefCell<Vec<(Value, Value)>> = const { RefCell::new(vec![]) };
}

fn decode<R: Read>(shape: Value, r: R) -> IPCResult<Value> {
    Ok(match st(&shape, "k") {
        "byte" => json!({"k": "byte", "b": BytePayload::from_payload(r)?.into_inner()}),
        "err" => {
            let e = ErrorEventData::from_payload(r)?;
            json!({"k": "err", "code": e.code, "msg": e.message.into_bytes()})
        }
        "tandem" => {
            SHAPES.with(|s| s.borrow_mut().push((shape["l"].clone(), shape["r"].clone())));
            let x = TandemPayload::<Left, Right>::from_payload(r);
            SHAPES.with(|s| s.borrow_mut().pop());
            let (l, r) = x?.into_inner();
            json!({"k": "tandem", "l": l.0, "r": r.0})
        }
        k => json!({"k": "serde", "v": decode_serde(st(&shape, "t"), k == "serde", r)?}),
    })
}

struct Left(Value);
struct Right(Value);

impl FromPayload for Left {
    fn from_payload<R: Read>(reader: R) -> IPCResult<Self> {
        let s = SHAPES.with(|s| s.borrow().last().unwrap().0.clone());
        decode(s, reader).map(Left)
    }
}

impl FromPayload for Right {
    fn from_payload<R: Read>(reader: R) -> IPCResult<Self> {
        let s = SHAPES.with(|s| s.borrow().last().unwrap().1.clone());
        decode(s, reader).map(Right)
    }
}

/// Decodes the payload of an event
fn receive(e: &Event, shape: &Value, hint: &Value) {
    SHAPES.with(|s| s.borrow_mut().push((shape.clone(), Value::Null)));
    let r = e.payload::<Left>();
    SHAPES.with(|s| s.borrow_mut().clear());
    let (ok, val) = match r {
        Ok(v) => (true, v.0),
        Err(_) => (false, json!({})),
    };
    log::ev("dec", json!({"shape": shape, "hint": hint, "bytes": e.data_raw(), "ok": ok, "val": val}));
}

/// dflt: -1 if it was not set
fn log_enc(p: &Value, dflt: i64, r: Result<Vec<u8>, Error>) {
    match r {
        Ok(b) => log::ev("enc", json!({"p": p, "dflt": dflt, "ok": true, "bytes": b})),
        Err(_) => log::ev("enc", json!({"p": p, "dflt": dflt, "ok": false, "bytes": []})),
    }
}

/// The payloads of all events with this name on the wire
fn on_wire(name: &str, ty: u8) -> Vec<Vec<u8>> {
    mem::net(|n| {
        n.conns
            .iter()
            .flat_map(|c| c.out.lock().frames.clone())
            .filter(|f| f.ty == ty && f.name == name.as_bytes())
            .map(|f| f.data)
            .collect()
    })
}

async fn client(s: &Value, addr: u64) -> Vec<Context> {
    let mut b = IPCBuilder::<mem::MemListener>::new().address(addr);
    if let Some(d) = s["cd"].as_u64() {
        b = b.default_serializer(format(d));
    }
    match s["n"].as_u64() {
        None => vec![b.build_client().await.expect("client")],
        Some(n) => {
            let p = b.build_pooled_client(n as usize).await.expect("pool");
            let g: Vec<_> = (0..n).map(|_| p.acquire()).collect();
            g.iter().map(|c| (**c).clone()).collect()
        }
    }
}

fn answer(
    s: Value,
) -> impl for<'a> Fn(&'a Context, Event) -> std::pin::Pin<Box<dyn std::future::Future<Output = IPCResult<Response>> + Send + 'a>> + Send + Sync
{
    move |ctx, event| {
        let s = s.clone();
        Box::pin(async move {
            receive(&event, &s["shape"], &s["p"]);
            ctx.emit("back", Dyn(s["back"].clone())).await?;
            ctx.response(Dyn(s["resp"].clone()))
        })
    }
}

async fn step(s: &Value) {
    match st(s, "do") {
        // directly
        "enc" => {
            let mut ctx = client(s, 1).await.pop().unwrap();
            if let Some(d) = s["set"].as_u64() {
                ctx.default_serializer = format(d);
            }
            let d = s["set"].as_u64().or(s["cd"].as_u64()).map(|d| d as i64).unwrap_or(-1);
            for p in s["ps"].as_array().unwrap() {
                log_enc(p, d, Dyn(p.clone()).into_payload(&ctx).map(|b| b.to_vec()));
            }
        }
        "dec" => {
            for x in s["ps"].as_array().unwrap() {
                let e = Event::initiator(None, "x".into(), bytes(&x["bytes"]).into());
                receive(&e, &x["shape"], &x["hint"]);
            }
        }
        // from a client to a server and back
        "both" => {
            let mut b = IPCBuilder::<mem::MemListener>::new().address(2);
            if let Some(d) = s["sd"].as_u64() {
                b = b.default_serializer(format(d));
            }
            let ns = st(s, "ns");
            b = if ns.is_empty() {
                b.on("x", answer(s.clone()))
            } else {
                b.namespace(ns).on("x", answer(s.clone())).build()
            };
            let j = tokio::spawn(b.build_server());
            for _ in 0..5 {
                tokio::task::yield_now().await;
            }
            let dflt = |k: &str| s[k].as_i64().unwrap_or(-1);
            let (cd, sd) = (dflt("cd"), dflt("sd"));
            for ctx in client(s, 2).await {
                let m = if ns.is_empty() { ctx.emit("x", Dyn(s["p"].clone())) } else { ctx.emit_to(ns, "x", Dyn(s["p"].clone())) };
                use futures::StreamExt;
                let mut items = m.stream_replies().await.expect("stream");
                let back = items.next().await;
                let end = items.next().await;
                for (what, hint, e) in [("bshape", "back", back), ("rshape", "resp", end)] {
                    match e {
                        Some(Ok(e)) => receive(&e, &s[what], &s[hint]),
                        _ => log::ev("noreply", json!({})),
                    }
                }
                for (name, ty, p, d) in [("x", 0, "p", cd), ("back", 1, "back", sd), ("end", 2, "resp", sd)] {
                    for w in on_wire(name, ty) {
                        log_enc(&s[p], d, Ok(w));
                    }
                }
            }
            j.abort();
            let _ = j.await;
        }
        x => panic!("unknown step {}", x),
    }
}

pub fn run(i: usize, sc: &Value) {
    mem::reset();
    mem::net(|n| n.raw = [1].into_iter().collect());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).on_thread_park(core::parked).build().unwrap();
    rt.block_on(async {
        log::begin(i);
        crate::alloc::reset();
        for s in sc["steps"].as_array().unwrap() {
            step(s).await;
        }
        crate::alloc::report();
        log::ev("end", json!({}));
        log::end();
    });
    log::end();
    drop(rt);
    mem::reset();
}
