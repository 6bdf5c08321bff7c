//! Runs scenarios on the event layer. What happened is only recorded, never judged.
use crate::frame::{self, Frame};
use crate::log;
use crate::mem;
use crate::tap;
use bromine::error::Error;
use bromine::error_event::ErrorEventData;
use bromine::event::Event;
use bromine::prelude::*;
use bromine::{callback, events, namespace};
use futures::StreamExt;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use tokio::sync::{watch, Notify};

/// The transport below the event layer
pub trait Transport: 'static + Send + Sync {
    type L: AsyncStreamProtocolListener<AddressType = Self::A> + 'static;
    type A: Clone + std::fmt::Debug + Send + Sync + 'static;
    fn address(addr: u64) -> Self::A;
    fn server_options(ep: &Value) -> <Self::L as AsyncStreamProtocolListener>::ListenerOptions;
    fn client_options(
        ep: &Value,
    ) -> <<Self::L as AsyncStreamProtocolListener>::Stream as AsyncProtocolStream>::StreamOptions;
    /// it takes real time
    const REAL: bool = false;
    /// it is another transport whose use is recorded
    const TAP: bool = false;
    fn raw_connect(addr: u64, step: Value) -> Pin<Box<dyn Future<Output = Option<usize>> + Send>> {
        Box::pin(async move { mem::raw_connect(addr, &flavor(&step["flavor"])) })
    }
    fn raw_listen(addr: u64) -> Pin<Box<dyn Future<Output = ()> + Send>> {
        Box::pin(async move {
            mem::net(|n| n.raw.insert(addr));
        })
    }
}

pub struct Mem;

pub fn flavor(v: &Value) -> mem::Flavor {
    let d = mem::Flavor::default();
    mem::Flavor {
        seed: v["seed"].as_u64().unwrap_or(d.seed),
        wmax: v["wmax"].as_u64().unwrap_or(0) as usize,
        pend: v["pend"].as_u64().unwrap_or(0),
        buffered: v["buffered"].as_bool().unwrap_or(false),
        rmax: v["rmax"].as_u64().unwrap_or(0) as usize,
    }
}

impl Transport for Mem {
    type L = mem::MemListener;
    type A = u64;
    fn address(addr: u64) -> u64 {
        addr
    }
    fn server_options(ep: &Value) -> mem::MemOpts {
        mem::MemOpts { ep: num(ep, "ep") as usize, flavor: flavor(&ep["flavor"]), untapped: false }
    }
    fn client_options(ep: &Value) -> mem::MemOpts {
        Self::server_options(ep)
    }
}

pub fn num(v: &Value, k: &str) -> u64 {
    v[k].as_u64().unwrap_or(0)
}

pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

type OpFuture = Pin<Box<dyn Future<Output = ()> + Send>>;

/// Something a user of the library is doing and may drop at any time
#[derive(Clone)]
struct Cell {
    fut: Arc<Mutex<Option<OpFuture>>>,
    stream: Arc<Mutex<Option<ResponseStream>>>,
}

enum Ep {
    Server,
    Client(Option<Context>),
    Pool(Option<PooledContext>),
}

#[derive(Default)]
struct World {
    eps: HashMap<u64, (Ep, u64)>,
    gates: HashMap<String, watch::Sender<bool>>,
    stash: HashMap<String, (u64, Context, u64)>,
    cells: HashMap<u64, Cell>,
    names: HashMap<String, usize>,
    raw_ids: HashMap<String, u64>,
    servers: Vec<tokio::task::JoinHandle<()>>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);
static CTXS: AtomicU64 = AtomicU64::new(1);
static OPS: AtomicU64 = AtomicU64::new(1000);

fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(World::default))
}

fn gate(name: &str) -> watch::Receiver<bool> {
    world(|w| w.gates.entry(name.to_string()).or_insert_with(|| watch::channel(false).0).subscribe())
}

/// A payload that can't be turned into bytes
struct Payload(Option<Vec<u8>>);

impl IntoPayload for Payload {
    fn into_payload(self, _: &Context) -> IPCResult<bromine::bytes::Bytes> {
        match self.0 {
            Some(v) => Ok(v.into()),
            None => Err(Error::from("not serializable")),
        }
    }
}

pub fn event_json(e: &Event) -> Value {
    frame::to_json(
        e.id(),
        u8::from(e.event_type()),
        e.reference_id(),
        e.namespace().as_deref().unwrap_or("").as_bytes(),
        e.name().as_bytes(),
        e.data_raw(),
    )
}

/// What is emitted: {ns, nm, tag, size, tmo, badpl, pad}
#[derive(Clone)]
struct What {
    ns: String,
    nm: String,
    tag: String,
    size: usize,
    tmo: Option<u64>,
    /// the timeout that its context has by default, if it was changed
    deft: Option<u64>,
    badpl: bool,
}

impl What {
    fn new(v: &Value, etag: &str) -> Self {
        // very long names are given as length
        let long = |k: &str, l: &str| match v[l].as_u64() {
            Some(n) => {
                let s = st(v, k).to_string();
                let n = (n as usize).saturating_sub(s.len());
                s + &"n".repeat(n)
            }
            None => st(v, k).to_string(),
        };
        What {
            ns: long("ns", "nslen"),
            nm: long("nm", "nmlen"),
            tag: st(v, "tag").replace("$e", etag),
            size: num(v, "size") as usize,
            tmo: v["tmo"].as_u64(),
            deft: v["deft"].as_u64(),
            badpl: v["badpl"].as_bool().unwrap_or(false),
        }
    }
    fn bad(&self, reference: bool) -> bool {
        self.badpl || 3 + 8 + 1 + 1 + if reference { 8 } else { 0 } + 4 + self.ns.len() + self.nm.len() > 65535
    }
    fn emit(&self, ctx: &Context) -> emit_metadata::EmitMetadata<Payload> {
        let p = Payload(if self.badpl { None } else { Some(frame::payload(&self.tag, self.size)) });
        // no namespace and the empty one are the same
        let plain = self.tag.bytes().map(|b| b as usize).sum::<usize>() % 4 != 0;
        if self.ns.is_empty() && plain {
            ctx.emit(&self.nm, p)
        } else {
            ctx.emit_to(&self.ns, &self.nm, p)
        }
    }
}

/// Who is emitting
#[derive(Clone)]
enum Who {
    Handler { k: u64, reference: bool },
    Sides(Vec<usize>),
}

fn log_call(o: u64, who: &Who, kind: &str, w: &What, tmo: u64) {
    let (k, cs, reference) = match who {
        Who::Handler { k, reference } => (*k, vec![], *reference),
        Who::Sides(s) => (0, s.clone(), false),
    };
    log::ev(
        "call",
        json!({"o": o, "k": k, "cs": cs, "kind": kind, "ns": w.ns, "nm": w.nm, "pl": w.tag,
               "tmo": w.tmo.or(w.deft).unwrap_or(tmo), "bad": w.bad(reference)}),
    );
}

fn classify(e: &Error) -> (&'static str, String) {
    match e {
        Error::Timeout => ("timeout", String::new()),
        Error::ErrorEvent(d) => ("event", frame::error_tag(d.code, &d.message)),
        _ => ("fail", String::new()),
    }
}

fn ret(o: u64, r: &str, extra: Value) {
    let mut v = json!({"o": o, "r": r, "id": 0, "pl": "", "f": frame::no_frame()});
    for (k, x) in extra.as_object().unwrap() {
        v[k] = x.clone();
    }
    log::ev("ret", v);
}

fn log_ret_err(o: u64, e: &Error) {
    let (r, pl) = classify(e);
    ret(o, r, json!({"pl": pl}));
}

async fn do_emit(o: u64, fut: emit_metadata::EmitMetadata<Payload>) -> Result<u64, Error> {
    let r = fut.await;
    match &r {
        Ok(id) => ret(o, "id", json!({"id": log::id(*id)})),
        Err(e) => log_ret_err(o, e),
    }
    r
}

async fn do_req(o: u64, fut: emit_metadata::EmitMetadata<Payload>, tmo: Option<u64>) -> Result<Event, Error> {
    let mut fut = fut.await_reply();
    if let Some(t) = tmo {
        fut = fut.with_timeout(Duration::from_millis(t));
    }
    let r = fut.await;
    match &r {
        Ok(e) => ret(o, "reply", json!({"f": event_json(e)})),
        Err(e) => log_ret_err(o, e),
    }
    r
}

async fn do_stream(
    o: u64,
    fut: emit_metadata::EmitMetadata<Payload>,
    tmo: Option<u64>,
) -> Result<ResponseStream, Error> {
    let mut fut = fut.stream_replies();
    if let Some(t) = tmo {
        fut = fut.with_timeout(Duration::from_millis(t));
    }
    let r = fut.await;
    match &r {
        Ok(_) => ret(o, "stream", json!({})),
        Err(e) => log_ret_err(o, e),
    }
    r
}

fn log_item(o: u64, i: &Option<Result<Event, Error>>) {
    let (r, f) = match i {
        None => ("none", frame::no_frame()),
        Some(Ok(e)) => ("reply", event_json(e)),
        Some(Err(Error::Timeout)) => ("timeout", frame::no_frame()),
        Some(Err(_)) => ("fail", frame::no_frame()),
    };
    log::ev("it", json!({"o": o, "r": r, "f": f}));
}

/// Polls the future of a cell until it is done or dropped
async fn run_cell(cell: Arc<Mutex<Option<OpFuture>>>) {
    std::future::poll_fn(|cx| {
        let mut g = cell.lock().unwrap_or_else(|e| e.into_inner());
        match g.as_mut() {
            None => Poll::Ready(()),
            Some(f) => match f.as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(()) => {
                    *g = None;
                    Poll::Ready(())
                }
            },
        }
    })
    .await
}

fn start_op(o: u64, who: Who, mut ctx: Context, kind: &str, w: What, tmo: u64) {
    log_call(o, &who, kind, &w, tmo);
    if let Some(d) = w.deft {
        ctx.default_reply_timeout = Duration::from_millis(d);
    }
    let stream = Arc::new(Mutex::new(None));
    let meta = w.emit(&ctx);
    drop(ctx);
    let fut: OpFuture = match kind {
        "emit" => Box::pin(async move {
            let _ = do_emit(o, meta).await;
        }),
        "req" => Box::pin(async move {
            let _ = do_req(o, meta, w.tmo).await;
        }),
        "stream" => {
            let stream = stream.clone();
            Box::pin(async move {
                if let Ok(s) = do_stream(o, meta, w.tmo).await {
                    *stream.lock().unwrap() = Some(s);
                }
            })
        }
        _ => panic!("unknown kind"),
    };
    let cell = Cell { fut: Arc::new(Mutex::new(Some(fut))), stream };
    world(|wd| wd.cells.insert(o, cell.clone()));
    tokio::spawn(run_cell(cell.fut));
}

fn start_next(o: u64) {
    let cell = match world(|w| w.cells.get(&o).cloned()) {
        Some(c) => c,
        None => return,
    };
    if cell.fut.lock().unwrap().is_some() || cell.stream.lock().unwrap().is_none() {
        return;
    }
    log::ev("nx", json!({"o": o}));
    let stream = cell.stream.clone();
    let fut: OpFuture = Box::pin(std::future::poll_fn(move |cx| {
        let mut g = stream.lock().unwrap_or_else(|e| e.into_inner());
        match g.as_mut() {
            None => Poll::Ready(()),
            Some(s) => match s.poll_next_unpin(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(i) => {
                    log_item(o, &i);
                    Poll::Ready(())
                }
            },
        }
    }));
    *cell.fut.lock().unwrap() = Some(fut);
    tokio::spawn(run_cell(cell.fut));
}

/// Gives up a context that was kept beyond its handler
fn unstash(x: Option<(u64, Context, u64)>) {
    if let Some((k, c, _)) = x {
        drop(c);
        log::ev("held", json!({"k": k, "n": -1}));
    }
}

fn drop_op(o: u64) {
    if let Some(cell) = world(|w| w.cells.remove(&o)) {
        let f = cell.fut.lock().unwrap_or_else(|e| e.into_inner()).take();
        let s = cell.stream.lock().unwrap_or_else(|e| e.into_inner()).take();
        if f.is_some() || s.is_some() {
            log::ev("dr", json!({"o": o}));
        }
        drop(f);
        drop(s);
    }
}

pub enum HandlerEnd {
    Ok(Vec<u8>),
    Err(Error),
    Panic,
    /// the program has no end of its own
    Fall,
}

fn fail_error(n: &str) -> Error {
    // any kind of error is described in the error reply
    match n {
        "io" => Error::IoError(std::io::Error::new(std::io::ErrorKind::Other, "FAILio;")),
        "timeout" => Error::Timeout,
        "corrupt" => Error::CorruptedEvent,
        "ioeof" => Error::IoError(std::io::ErrorKind::UnexpectedEof.into()),
        "iopipe" => Error::IoError(std::io::ErrorKind::BrokenPipe.into()),
        "iointr" => Error::IoError(std::io::ErrorKind::Interrupted.into()),
        "send" => Error::SendError,
        "state" => Error::InvalidState,
        "build" => Error::BuildError("FAILbuild;".into()),
        "version" => Error::UnsupportedVersion("FAILversion;".into()),
        "recv" => {
            let (tx, rx) = tokio::sync::oneshot::channel::<()>();
            drop(tx);
            match futures::FutureExt::now_or_never(rx) {
                Some(Err(e)) => Error::ReceiveError(e),
                _ => Error::SendError,
            }
        }
        #[cfg(feature = "payload")]
        "ser" => Error::Serialization(std::io::Error::new(std::io::ErrorKind::Other, "FAILser;").into()),
        #[cfg(feature = "full")]
        "peer" => Error::UnknownPeer(x25519_dalek::PublicKey::from([7; 32])),
        "long" => Error::Message(format!("FAIL{};", "very long é ".repeat(2000))),
        n if n.starts_with("code") => Error::ErrorEvent(ErrorEventData { code: 404, message: format!("FAIL{};", n) }),
        n => Error::Message(format!("FAIL{};", n)),
    }
}

fn prog<'a>(
    steps: &'a [Value],
    k: u64,
    ctx: &'a Context,
    event: &'a Event,
    tmo: u64,
) -> Pin<Box<dyn Future<Output = HandlerEnd> + Send + 'a>> {
    Box::pin(async move {
        let etag = frame::tag(event.data_raw());
        let who = Who::Handler { k, reference: true };
        for s in steps {
            let (what, arg) = s.as_object().and_then(|m| m.iter().next()).expect("program step");
            match what.as_str() {
                "gate" => {
                    let mut g = gate(arg.as_str().unwrap());
                    let _ = g.wait_for(|o| *o).await;
                }
                "sleep" => tokio::time::sleep(Duration::from_millis(arg.as_u64().unwrap())).await,
                "yield" => {
                    for _ in 0..arg.as_u64().unwrap() {
                        tokio::task::yield_now().await;
                    }
                }
                "emit" => {
                    let w = What::new(arg, &etag);
                    let o = OPS.fetch_add(1, Ordering::SeqCst);
                    log_call(o, &who, "emit", &w, tmo);
                    let _ = do_emit(o, w.emit(ctx)).await;
                }
                "req" => {
                    let w = What::new(arg, &etag);
                    let o = OPS.fetch_add(1, Ordering::SeqCst);
                    log_call(o, &who, "req", &w, tmo);
                    let r = do_req(o, w.emit(ctx), w.tmo).await;
                    match r {
                        Err(e) if arg["prop"].as_bool() == Some(true) => return HandlerEnd::Err(e),
                        Ok(e) if arg["echo"].as_bool() == Some(true) => {
                            return HandlerEnd::Ok(e.data_raw().to_vec())
                        }
                        _ => {}
                    }
                }
                "stream" => {
                    let w = What::new(arg, &etag);
                    let o = OPS.fetch_add(1, Ordering::SeqCst);
                    log_call(o, &who, "stream", &w, tmo);
                    if let Ok(mut s) = do_stream(o, w.emit(ctx), w.tmo).await {
                        let mut n = arg["n"].as_u64().unwrap_or(u64::MAX);
                        while n > 0 {
                            log::ev("nx", json!({"o": o}));
                            let i = s.next().await;
                            log_item(o, &i);
                            if i.is_none() {
                                break;
                            }
                            n -= 1;
                        }
                        log::ev("dr", json!({"o": o}));
                    }
                }
                "stash" => {
                    log::ev("held", json!({"k": k, "n": 1}));
                    let c = ctx.clone();
                    let old = world(|w| w.stash.insert(arg.as_str().unwrap().replace("$e", &etag), (k, c, tmo)));
                    unstash(old);
                }
                "bg" => {
                    log::ev("held", json!({"k": k, "n": 1}));
                    let c = ctx.clone();
                    let steps = arg.as_array().unwrap().clone();
                    let raw = event.data_raw().to_vec();
                    tokio::spawn(async move {
                        let e = Event::initiator(None, String::new(), raw.into());
                        prog(&steps, k, &c, &e, tmo).await;
                        unstash(Some((k, c, tmo)));
                    });
                }
                // depends on the event
                "switch" => match arg[&etag].as_array() {
                    Some(steps) => return prog(steps, k, ctx, event, tmo).await,
                    None => {}
                },
                "ok" => return HandlerEnd::Ok(frame::payload(&st(arg, "tag").replace("$e", &etag), num(arg, "size") as usize)),
                "echo" => return HandlerEnd::Ok(event.data_raw().to_vec()),
                "err" => return HandlerEnd::Err(fail_error(arg.as_str().unwrap())),
                "panic" => return HandlerEnd::Panic,
                "never" => std::future::pending::<()>().await,
                o => panic!("unknown program step {}", o),
            }
        }
        HandlerEnd::Fall
    })
}

fn handler(
    h: u64,
    steps: Vec<Value>,
    tmo: u64,
) -> impl for<'a> Fn(&'a Context, Event) -> Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>> + Send + Sync
{
    let steps = Arc::new(steps);
    move |ctx, event| {
        let steps = steps.clone();
        Box::pin(async move {
            let k = CTXS.fetch_add(1, Ordering::SeqCst);
            log::ev("hs", json!({"k": k, "h": h, "f": event_json(&event)}));
            match prog(&steps, k, ctx, &event, tmo).await {
                HandlerEnd::Fall => {
                    log::ev("he", json!({"k": k, "res": "ok", "pl": ""}));
                    Ok(Response::empty())
                }
                HandlerEnd::Ok(v) => {
                    log::ev("he", json!({"k": k, "res": "ok", "pl": frame::tag(&v)}));
                    ctx.response(Payload(Some(v)))
                }
                HandlerEnd::Err(e) => {
                    let text = format!("{:?}", e);
                    log::ev("he", json!({"k": k, "res": "err", "pl": frame::error_tag(500, &text)}));
                    Err(e)
                }
                HandlerEnd::Panic => {
                    log::ev("he", json!({"k": k, "res": "panic", "pl": ""}));
                    panic!("SCENARIO-PANIC")
                }
            }
        })
    }
}

pub fn builder<T: Transport>(ep: &Value) -> IPCBuilder<T::L> {
    let tmo = ep["tmo"].as_u64();
    let t = tmo.unwrap_or(60000);
    let mut b = IPCBuilder::<T::L>::new()
        .address(T::address(num(ep, "addr")))
        .server_options(T::server_options(ep))
        .client_options(T::client_options(ep));
    if let Some(t) = tmo {
        b = b.timeout(Duration::from_millis(t));
    }
    let empty = vec![];
    let on = ep["on"].as_array().unwrap_or(&empty);
    for h in on.iter().filter(|h| st(h, "ns").is_empty()) {
        b = b.on(st(h, "nm"), handler(num(h, "h"), h["prog"].as_array().unwrap_or(&empty).clone(), t));
    }
    // namespaces, in the order of their registration (one may be registered again)
    let mut nss: Vec<(u64, &str)> = vec![];
    for h in on {
        let n = (num(h, "reg"), st(h, "ns"));
        if !n.1.is_empty() && !nss.contains(&n) {
            nss.push(n);
        }
    }
    nss.sort_by_key(|n| n.0);
    for x in ep["nss"].as_array().unwrap_or(&empty) {
        // namespaces without any handlers
        nss.push((u64::MAX, x.as_str().unwrap()));
    }
    for (i, (reg, ns)) in nss.iter().enumerate() {
        let mine: Vec<&Value> = on.iter().filter(|h| st(h, "ns") == *ns && num(h, "reg") == *reg).collect();
        let make = |h: &Value| handler(num(h, "h"), h["prog"].as_array().cloned().unwrap_or_default(), t);
        // stands for one without a name
        let ns: &str = if *ns == "\u{1}" { "" } else { ns };
        let way = (ns.len() + i + mine.len() + num(ep, "ep") as usize) % 4;
        if way == 0 {
            let mut nb = b.namespace(ns);
            for h in mine {
                nb = nb.on(st(h, "nm"), make(h));
            }
            b = nb.build();
        } else if way == 1 {
            let mut eh = EventHandler::new();
            for h in mine {
                eh.on(st(h, "nm"), make(h));
            }
            b = b.add_namespace(Namespace::new(ns, eh));
        } else {
            // by a type that knows its handlers
            let hs = mine.iter().map(|h| (st(h, "nm").to_string(), num(h, "h"), h["prog"].as_array().cloned().unwrap_or_default(), t));
            *PROVIDED.lock().unwrap() = Some((Box::leak(ns.to_string().into_boxed_str()), hs.collect()));
            b = b.add_namespace(if way == 2 { Namespace::from_provider::<Provider>() } else { namespace!(Provider) });
        }
    }
    b
}

type Given = (String, u64, Vec<Value>, u64);

static PROVIDED: Mutex<Option<(&'static str, Vec<Given>)>> = Mutex::new(None);

struct Provider;

impl NamespaceProvider for Provider {
    fn name() -> &'static str {
        PROVIDED.lock().unwrap().as_ref().unwrap().0
    }
    fn register(handler: &mut EventHandler) {
        let hs = PROVIDED.lock().unwrap().take().unwrap().1;
        for (i, (nm, h, steps, t)) in hs.into_iter().enumerate() {
            // with and without the macros
            match slot(h, &steps, t) {
                Some(0) if i % 2 == 0 => events!(handler, &nm => slot0),
                Some(1) if i % 2 == 0 => events!(handler, &nm => self::slot1),
                Some(2) => events!(handler, &nm => slot2),
                Some(3) => handler.on(&nm, callback!(slot3)),
                _ => {
                    let run = Arc::new(self::handler(h, steps, t));
                    handler.on(&nm, callback!(ctx, event, {
                        let run = run.clone();
                        async move { run(ctx, event).await }
                    }))
                }
            }
        }
    }
}

/// Handlers that are functions: what they do is looked up.
static SLOTS: Mutex<Vec<(u64, Vec<Value>, u64)>> = Mutex::new(Vec::new());

fn slot(h: u64, steps: &[Value], t: u64) -> Option<usize> {
    let mut s = SLOTS.lock().unwrap();
    if s.len() < 4 {
        s.push((h, steps.to_vec(), t));
        Some(s.len() - 1)
    } else {
        None
    }
}

async fn slot_run(i: usize, ctx: &Context, event: Event) -> IPCResult<Response> {
    let (h, steps, t) = SLOTS.lock().unwrap()[i].clone();
    let run = handler(h, steps, t);
    run(ctx, event).await
}

async fn slot0(ctx: &Context, event: Event) -> IPCResult<Response> {
    slot_run(0, ctx, event).await
}

async fn slot1(ctx: &Context, event: Event) -> IPCResult<Response> {
    slot_run(1, ctx, event).await
}

async fn slot2(ctx: &Context, event: Event) -> IPCResult<Response> {
    slot_run(2, ctx, event).await
}

async fn slot3(ctx: &Context, event: Event) -> IPCResult<Response> {
    slot_run(3, ctx, event).await
}

async fn start_ep<T: Transport>(ep: &Value) {
    let id = num(ep, "ep");
    let tmo = ep["tmo"].as_u64().unwrap_or(60000);
    let b = builder::<T>(ep);
    match st(ep, "kind") {
        "server" => {
            let j = tokio::spawn(async move {
                let r = b.build_server().await;
                if let Err(e) = r {
                    log::ev("startfail", json!({"ep": id, "err": format!("{:?}", e)}));
                }
            });
            world(|w| {
                w.servers.push(j);
                w.eps.insert(id, (Ep::Server, tmo));
            });
            // let it bind
            quiet().await;
        }
        "client" => match b.build_client().await {
            Ok(c) => world(|w| {
                w.eps.insert(id, (Ep::Client(Some(c)), tmo));
            }),
            Err(e) => log::ev("startfail", json!({"ep": id, "err": format!("{:?}", e)})),
        },
        "pool" => match b.build_pooled_client(num(ep, "n") as usize).await {
            Ok(c) => world(|w| {
                w.eps.insert(id, (Ep::Pool(Some(c)), tmo));
            }),
            Err(e) => log::ev("startfail", json!({"ep": id, "err": format!("{:?}", e)})),
        },
        k => panic!("unknown kind of endpoint {}", k),
    }
}

/// Connections are called by the name they were given ("r1"), or by the endpoint that
/// made them ("2.0" the first of endpoint 2, "2.0p" its other side).
pub fn side(name: &str) -> Option<usize> {
    if let Some(s) = world(|w| w.names.get(name).copied()) {
        return Some(s);
    }
    let p = name.ends_with('p');
    let (ep, n) = name.trim_end_matches('p').split_once('.')?;
    let (ep, n): (usize, usize) = (ep.parse().ok()?, n.parse().ok()?);
    mem::net(|net| {
        let c = net.conns.iter().filter(|c| c.ep == ep && !c.server).nth(n)?;
        if p {
            Some(c.peer)
        } else {
            Some(c.side)
        }
    })
}

fn sides_of(ep: u64) -> Vec<usize> {
    mem::net(|net| net.conns.iter().filter(|c| c.ep == ep as usize && !c.server).map(|c| c.side).collect())
}

/// 5 is the number itself, "x" a name for some number, "t:tag" the id of the event with
/// this payload that was seen on the wire, "t:tag~5" that with bit 5 inverted
fn raw_id(v: &Value) -> Option<u64> {
    match v {
        Value::Null => None,
        Value::Number(n) => n.as_u64(),
        Value::String(s) if s.contains('~') => {
            let (base, change) = s.split_once('~').unwrap();
            let id = raw_id(&json!(base))?;
            Some(match change {
                "swap" => id.swap_bytes(),
                "low" => id & 0xFFFF_FFFF,
                "not" => !id,
                "prev" => id.wrapping_sub(1),
                bit => id ^ 1 << bit.parse::<u32>().expect("a bit"),
            })
        }
        Value::String(s) => Some(match s.strip_prefix("t:") {
            Some(tag) => mem::net(|n| {
                n.conns
                    .iter()
                    .flat_map(|c| c.out.lock().frames.clone())
                    .find(|f| frame::tag(&f.data) == tag)
                    .map(|f| f.id)
            })
            .unwrap_or(0xDEAD_0000_0000_0001),
            None => world(|w| {
                let n = w.raw_ids.len() as u64;
                *w.raw_ids.entry(s.clone()).or_insert(0xF000_0000_0000_0000 | (n << 8) | 7)
            }),
        }),
        _ => None,
    }
}

pub fn raw_frame(s: &Value) -> Vec<u8> {
    let w = What::new(s, "");
    let data = if let Some(c) = s["code"].as_u64() {
        frame::error_payload(c as u16, st(s, "msg"))
    } else if let Some(h) = s["hex"].as_str() {
        unhex(h)
    } else {
        frame::payload(&w.tag, w.size)
    };
    let f = Frame {
        version: match s["ver"].as_array() {
            Some(v) => [v[0].as_u64().unwrap() as u8, v[1].as_u64().unwrap() as u8, v[2].as_u64().unwrap() as u8],
            None => [0, 9, 0],
        },
        id: raw_id(&s["id"]).unwrap_or(0xABCD),
        ty: frame::ty_code(s["ty"].as_str().unwrap_or("I")),
        reference: raw_id(&s["ref"]),
        ns: w.ns.into_bytes(),
        name: w.nm.into_bytes(),
        extra: vec![0xEE; num(s, "extra") as usize],
        data,
    };
    let mut b = f.encode();
    for p in s["patch"].as_array().unwrap_or(&vec![]) {
        let i = p[0].as_i64().unwrap();
        let i = if i < 0 { (b.len() as i64 + i) as usize } else { i as usize };
        if i < b.len() {
            b[i] = p[1].as_u64().unwrap() as u8;
        }
    }
    if let Some(c) = s["cut"].as_u64() {
        b.truncate(c as usize);
    }
    if let Some(c) = s["from"].as_u64() {
        b.drain(..(c as usize).min(b.len()));
    }
    b
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

static WANTED: AtomicBool = AtomicBool::new(false);
static PARKED: Notify = Notify::const_new();

/// Called by the runtime when no task can do anything
pub fn parked() {
    if WANTED.swap(false, Ordering::SeqCst) {
        PARKED.notify_one();
    }
}

/// Waits until nothing is left to do at this moment
pub async fn quiet() {
    WANTED.store(true, Ordering::SeqCst);
    PARKED.notified().await;
}

/// The same in real time: nothing has moved for a while and nothing is under way anymore.
/// (What is under way and does not arrive is only waited for so long.)
async fn settle_real() {
    let (mut last, mut still) = (u64::MAX, 0);
    loop {
        // whatever is due at this moment is done below
        let t = log::now_ms();
        tokio::time::sleep(Duration::from_millis(1)).await;
        quiet().await;
        let now = log::count() + tap::moves();
        still = if now == last { still + 1 } else { 0 };
        last = now;
        if still >= 5 && (still >= 400 || !tap::under_way()) {
            log::ev_at("idle", json!({}), Some(t));
            break;
        }
    }
}

pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
    // whatever is due in this very moment, too
    quiet().await;
    log::ev("idle", json!({}));
}

async fn step<T: Transport>(s: &Value, eps: &HashMap<u64, Value>) {
    let pipe_out = |s: &Value| side(st(s, "c")).map(|x| mem::conn(x).out);
    let pipe_in = |s: &Value| side(st(s, "c")).map(|x| mem::conn(x).inp);
    match st(s, "do") {
        "start" => start_ep::<T>(&eps[&num(s, "ep")]).await,
        "connect" => {
            if let Some(x) = T::raw_connect(num(s, "addr"), s.clone()).await {
                world(|w| w.names.insert(st(s, "as").to_string(), x));
            }
        }
        "call" => {
            let o = num(s, "o");
            let w = What::new(s, "");
            if let Some(h) = s["h"].as_str() {
                if let Some((k, ctx, tmo)) = world(|wd| wd.stash.get(h).cloned()) {
                    start_op(o, Who::Handler { k, reference: true }, ctx, st(s, "kind"), w, tmo);
                }
                return;
            }
            let ep = num(s, "ep");
            let got = world(|wd| match wd.eps.get(&ep) {
                Some((Ep::Client(Some(c)), t)) => Some((c.clone(), *t)),
                Some((Ep::Pool(Some(p)), t)) => {
                    // while others are in use
                    let others: Vec<_> = (0..s["via"].as_u64().unwrap_or(o % 4)).map(|_| p.acquire()).collect();
                    let c = (*p.acquire()).clone();
                    drop(others);
                    Some((c, *t))
                }
                _ => None,
            });
            if let Some((ctx, t)) = got {
                start_op(o, Who::Sides(sides_of(ep)), ctx, st(s, "kind"), w, t);
            }
        }
        "next" => start_next(num(s, "o")),
        "unnext" => {
            if let Some(c) = world(|w| w.cells.get(&num(s, "o")).cloned()) {
                let f = if c.stream.lock().unwrap().is_some() { c.fut.lock().unwrap().take() } else { None };
                if f.is_some() {
                    log::ev("un", json!({"o": num(s, "o")}));
                }
                drop(f);
            }
        }
        "drop" => drop_op(num(s, "o")),
        "frame" => {
            if T::TAP {
                if let Some(x) = side(st(s, "c")) {
                    tap::raw_send(x, raw_frame(s));
                }
            } else if let Some(p) = pipe_in(s) {
                let b = raw_frame(s);
                match s["chunk"].as_u64() {
                    None => p.lock().push(&b),
                    Some(n) => {
                        for c in b.chunks(n as usize) {
                            p.lock().push(c);
                            tokio::task::yield_now().await;
                        }
                    }
                }
            }
        }
        "bytes" => {
            if T::TAP {
                if let Some(x) = side(st(s, "c")) {
                    tap::raw_send(x, unhex(st(s, "hex")));
                }
            } else if let Some(p) = pipe_in(s) {
                p.lock().push(&unhex(st(s, "hex")));
            }
        }
        "end" => {
            if T::TAP {
                if let Some(x) = side(st(s, "c")) {
                    tap::raw_end(x);
                }
            } else if let Some(p) = pipe_in(s) {
                p.lock().end(s["err"].as_bool().unwrap_or(false));
            }
        }
        "refuse" => {
            if let Some(p) = pipe_out(s) {
                p.lock().refuse();
            }
        }
        "wblock" => {
            if let Some(p) = pipe_out(s) {
                p.lock().set_budget(s["n"].as_u64().map(|n| n as usize));
            }
        }
        "fhold" => {
            if let Some(p) = pipe_out(s) {
                p.lock().set_fhold(s["v"].as_bool().unwrap_or(true));
            }
        }
        "rhold" => {
            if let Some(p) = pipe_in(s) {
                p.lock().set_rhold(s["v"].as_bool().unwrap_or(true));
            }
        }
        "open" => {
            let g = st(s, "gate").to_string();
            gate(&g);
            world(|w| w.gates[&g].send_replace(true));
        }
        "stop" => {
            let ep = num(s, "ep");
            let got = world(|wd| match wd.eps.get(&ep) {
                Some((Ep::Client(Some(c)), _)) => Some(c.clone()),
                _ => None,
            });
            if let Some(c) = got {
                for x in sides_of(ep) {
                    log::ev("stop", json!({"c": x}));
                }
                let r = c.stop().await;
                if r.is_err() {
                    log::ev("stopfail", json!({"ep": ep}));
                }
            }
        }
        "ctxdrop" => {
            let ep = num(s, "ep");
            let old = world(|wd| match wd.eps.get_mut(&ep) {
                Some((Ep::Client(c), _)) => (c.take(), None),
                Some((Ep::Pool(p), _)) => (None, p.take()),
                _ => (None, None),
            });
            if old.0.is_some() || old.1.is_some() {
                for x in sides_of(ep) {
                    log::ev("set", json!({"c": x, "field": "held", "v": false}));
                }
            }
        }
        "unstash" => {
            let old = world(|w| w.stash.remove(st(s, "h")));
            unstash(old);
        }
        "yield" => {
            for _ in 0..s["n"].as_u64().unwrap_or(1) {
                tokio::task::yield_now().await;
            }
        }
        "adv" => tokio::time::sleep(Duration::from_millis(num(s, "ms"))).await,
        "settle" if T::REAL => settle_real().await,
        "settle" => settle().await,
        o => panic!("unknown step {}", o),
    }
}

async fn scenario<T: Transport>(sc: &Value) {
    let eps: HashMap<u64, Value> =
        sc["eps"].as_array().unwrap().iter().map(|e| (num(e, "ep"), e.clone())).collect();
    for a in sc["raw"].as_array().unwrap_or(&vec![]) {
        T::raw_listen(a.as_u64().unwrap()).await;
    }
    for s in sc["steps"].as_array().unwrap() {
        step::<T>(s, &eps).await;
    }
    crate::alloc::report();
    log::ev("end", json!({}));
}

fn reset() {
    let old = WORLD.lock().unwrap_or_else(|e| e.into_inner()).take();
    drop(old);
    mem::reset();
    SLOTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    tap::reset();
    tap::next_run();
    CTXS.store(1, Ordering::SeqCst);
    OPS.store(1000, Ordering::SeqCst);
}

pub fn run<T: Transport>(i: usize, sc: &Value) {
    reset();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(!T::REAL).on_thread_park(parked).build().unwrap();
    rt.block_on(async {
        log::begin(i);
        crate::alloc::reset();
        scenario::<T>(sc).await;
        log::end();
    });
    log::end();
    drop(rt);
    reset();
}
