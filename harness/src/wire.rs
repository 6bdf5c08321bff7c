//! Bytes given to a connection and what becomes of them; events and what they are turned into.
use crate::core::{num, quiet, st};
use crate::{alloc, core, log, mem};
use bromine::event::{Event, EventType};
use bromine::prelude::*;
use serde_json::{json, Value};
use std::sync::Mutex;
use std::time::Duration;

static GOT: Mutex<Vec<Event>> = Mutex::new(Vec::new());

fn bytes(v: &Value) -> Vec<u8> {
    match v {
        // [n, byte]: n times that byte
        Value::Object(o) => vec![o["b"].as_u64().unwrap() as u8; o["n"].as_u64().unwrap() as usize],
        v => v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default(),
    }
}

fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("utf8")
}

fn be(id: u64) -> Vec<u8> {
    id.to_be_bytes().to_vec()
}

fn event(e: &Event) -> Value {
    let ty = match e.event_type() {
        EventType::Initiator => 0,
        EventType::Response => 1,
        EventType::End => 2,
        EventType::Error => 3,
    };
    json!({
        "id": be(e.id()), "ty": ty, "ref": e.reference_id().map(be).unwrap_or_default(),
        "ns": e.namespace().as_ref().map(|n| n.as_bytes().to_vec()).unwrap_or_default(),
        "nm": e.name().as_bytes(), "data": e.data_raw(),
    })
}

fn echo() -> impl for<'a> Fn(&'a Context, Event) -> std::pin::Pin<Box<dyn std::future::Future<Output = IPCResult<Response>> + Send + 'a>> + Send + Sync {
    |ctx, e| {
        Box::pin(async move {
            let r = ctx.response(BytePayload::new(e.data_raw().to_vec()));
            GOT.lock().unwrap().push(e);
            r
        })
    }
}

fn builder(sc: &Value, addr: u64, flavor: mem::Flavor) -> IPCBuilder<mem::MemListener> {
    let opts = mem::MemOpts { ep: 1, flavor, untapped: true };
    let mut b = IPCBuilder::<mem::MemListener>::new().address(addr).server_options(opts.clone()).client_options(opts);
    for h in sc["on"].as_array().unwrap() {
        let ns = text(&h["ns"]);
        if ns.is_empty() {
            b = b.on(&text(&h["nm"]), echo());
        } else {
            // one name per namespace
            b = b.namespace(ns).on(&text(&h["nm"]), echo()).build();
        }
    }
    b
}

async fn calm() {
    tokio::time::sleep(Duration::from_millis(1)).await;
    quiet().await;
}

/// What the parser that records frames in the other modes makes of it
fn ours(mut b: &[u8]) -> Value {
    let mut frames = vec![];
    loop {
        match crate::frame::parse(b) {
            crate::frame::Parsed::Frame(f, n) => {
                frames.push(json!({"id": be(f.id), "ty": f.ty, "ref": f.reference.map(be).unwrap_or_default(), "ns": f.ns, "nm": f.name, "data": f.data}));
                b = &b[n..];
            }
            crate::frame::Parsed::Incomplete => return json!({"frames": frames, "bad": false}),
            crate::frame::Parsed::Bad(_) => return json!({"frames": frames, "bad": true}),
        }
    }
}

/// A connection that receives these bytes
async fn receive(sc: &Value, s: &Value) {
    let client = st(sc, "side") == "client";
    let flavor = core::flavor(&s["flavor"]);
    let input = bytes(&s["bytes"]);
    GOT.lock().unwrap().clear();
    let before = mem::net(|n| n.conns.len());
    let mut ctx = None;
    if client {
        ctx = Some(builder(sc, 50, flavor.clone()).build_client().await.expect("client"));
    } else {
        mem::raw_connect(1, &flavor);
    }
    let c = mem::net(|n| n.conns[before].clone());
    {
        let mut o = c.out.lock();
        o.untapped = true;
        o.silent = true;
        o.capture = Some(vec![]);
        let mut i = c.inp.lock();
        i.untapped = true;
        i.silent = true;
        i.flavor = flavor;
    }
    calm().await;
    // what the harness itself needs for this
    c.inp.lock().avail.reserve(input.len() * 2);
    alloc::reset();
    let live = alloc::live();
    let cuts = s["cuts"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>()).unwrap_or_default();
    let mut at = 0;
    for cut in cuts.into_iter().chain([input.len()]) {
        if cut > at && cut <= input.len() {
            c.inp.lock().push(&input[at..cut]);
            at = cut;
            if at < input.len() {
                calm().await;
            }
        }
    }
    let eof = s["eof"].as_bool() == Some(true);
    if eof {
        c.inp.lock().end(s["err"].as_bool() == Some(true));
    }
    calm().await;
    let kib = (alloc::peak().saturating_sub(live)) >> 10;
    let open = !c.inp.lock().rclosed;
    let out = c.out.lock().capture.take().unwrap();
    let got: Vec<Value> = GOT.lock().unwrap().drain(..).map(|e| event(&e)).collect();
    log::ev("dec", json!({"ours": ours(&input), "bytes": input, "eof": eof, "got": got, "out": out, "open": open, "kib": kib}));
    if let Some(ctx) = ctx {
        let _ = ctx.stop().await;
    }
    c.inp.lock().end(false);
    c.out.lock().refuse();
    mem::net(|n| n.conns.clear());
    calm().await;
}

fn made(ty: u8, reference: Option<u64>, s: &Value, id: u64, r: Result<Vec<u8>, bromine::error::Error>, whole: bool) {
    let (ok, b) = match r {
        Ok(b) => (true, b),
        Err(_) => (false, vec![]),
    };
    log::ev(
        "enc",
        json!({"f": {"id": be(id), "ty": ty, "ref": reference.map(be).unwrap_or_default(), "ns": bytes(&s["ns"]), "nm": bytes(&s["nm"]), "data": bytes(&s["data"])},
               "ok": ok, "bytes": b, "whole": whole}),
    );
}

/// An event is turned into bytes
async fn send(s: &Value) {
    let ns = text(&s["ns"]);
    let nm = text(&s["nm"]);
    let data = bytes(&s["data"]);
    let reference = s["ref"].as_str().map(|r| r.parse::<u64>().unwrap());
    let nso = if ns.is_empty() && s["none"].as_bool() == Some(true) { None } else { Some(ns.clone()) };
    let ty = num(s, "ty") as u8;
    if st(s, "how") == "event" {
        let r = reference.unwrap_or(7);
        let d = data.clone().into();
        let (e, reference) = match ty {
            0 => (Event::initiator(nso, nm, d), None),
            1 => (Event::response(nso, nm, d, r), Some(r)),
            2 => (Event::end(nso, nm, d, r), Some(r)),
            _ => (Event::error(nso, nm, d, r), Some(r)),
        };
        let id = e.id();
        made(ty, reference, s, id, e.into_bytes().map(|b| b.to_vec()), true);
        return;
    }
    // emitted by a client
    let before = mem::net(|n| n.conns.len());
    let opts = mem::MemOpts { ep: 1, flavor: core::flavor(&s["flavor"]), untapped: true };
    let ctx = IPCBuilder::<mem::MemListener>::new().address(50).client_options(opts).build_client().await.expect("client");
    let c = mem::net(|n| n.conns[before].clone());
    c.out.lock().capture = Some(vec![]);
    let p = BytePayload::new(data);
    let r = if nso.is_some() { ctx.emit_to(&ns, &nm, p).await } else { ctx.emit(&nm, p).await };
    calm().await;
    let out = c.out.lock().capture.take().unwrap();
    match r {
        Ok(id) => made(0, None, s, id, Ok(out), true),
        // nothing may be sent
        Err(e) => made(0, None, s, 0, if out.is_empty() { Err(e) } else { Ok(out) }, true),
    }
    let _ = ctx.stop().await;
    mem::net(|n| n.conns.clear());
    calm().await;
}

pub fn run(i: usize, sc: &Value) {
    mem::reset();
    mem::net(|n| n.raw = [50].into_iter().collect());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).on_thread_park(core::parked).build().unwrap();
    rt.block_on(async {
        log::begin(i);
        let mut server = None;
        if st(sc, "side") == "server" {
            server = Some(tokio::spawn(builder(sc, 1, mem::Flavor::default()).build_server()));
            calm().await;
        }
        for s in sc["steps"].as_array().unwrap() {
            match st(s, "do") {
                "dec" => receive(sc, s).await,
                "enc" => send(s).await,
                x => panic!("unknown step {}", x),
            }
        }
        if let Some(j) = server {
            j.abort();
        }
        log::ev("end", json!({}));
        log::end();
    });
    log::end();
    drop(rt);
    mem::reset();
}
