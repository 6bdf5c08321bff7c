//! Pools: which connection an acquired context belongs to, recorded for every acquisition.
use crate::{core, frame, log, mem};
use bromine::prelude::*;
use core::{num, st};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use tokio::runtime::Handle;

type Guard = PoolGuard<Context>;
static PROBES: AtomicU64 = AtomicU64::new(1);

/// Which connection is it? Wherever the event appears.
fn probe(h: &Handle, g: &Guard) -> usize {
    let name = format!("p{}", PROBES.fetch_add(1, Ordering::SeqCst));
    if h.block_on(g.emit(&name, BytePayload::new(vec![]))).is_err() {
        return 0;
    }
    mem::net(|n| {
        n.conns
            .iter()
            .find(|c| c.out.lock().frames.iter().any(|f: &frame::Frame| f.name == name.as_bytes()))
            .map(|c| c.side)
            .unwrap_or(0)
    })
}

struct W {
    h: Handle,
    pools: HashMap<u64, PooledContext>,
    guards: HashMap<u64, Guard>,
    many: HashMap<u64, Vec<Guard>>,
}

/// One operation. `th`: the thread, 0: nothing else is going on
fn op(w: &mut W, s: &Value, th: usize) {
    let (o, g, a) = (num(s, "obj"), num(s, "g"), num(s, "as"));
    let k = st(s, "do");
    log::ev("b", json!({"th": th, "k": k, "obj": o, "g": g, "as": a}));
    match k {
        "acq" => {
            let x = w.pools[&o].acquire();
            log::ev("r", json!({"th": th}));
            log::ev("is", json!({"g": g, "c": probe(&w.h, &x)}));
            w.guards.insert(g, x);
        }
        "cloneg" => {
            let x = w.guards[&g].clone();
            log::ev("r", json!({"th": th}));
            log::ev("is", json!({"g": a, "c": probe(&w.h, &x)}));
            w.guards.insert(a, x);
        }
        "dropg" => {
            drop(w.guards.remove(&g));
            log::ev("r", json!({"th": th}));
        }
        "clonep" => {
            let x = w.pools[&o].clone();
            log::ev("r", json!({"th": th}));
            w.pools.insert(a, x);
        }
        "dropp" => {
            drop(w.pools.remove(&o));
            log::ev("r", json!({"th": th}));
        }
        x => panic!("unknown operation {}", x),
    }
}

fn step(w: &mut W, rt: &tokio::runtime::Runtime, s: &Value) {
    match st(s, "do") {
        "build" => {
            let b = IPCBuilder::<mem::MemListener>::new().address(num(s, "addr"));
            log::ev("bp", json!({}));
            match rt.block_on(b.build_pooled_client(num(s, "n") as usize)) {
                Ok(p) => {
                    log::ev("built", json!({"obj": num(s, "obj"), "n": num(s, "n"), "ok": true, "err": ""}));
                    w.pools.insert(num(s, "obj"), p);
                }
                Err(e) => {
                    let e = match e {
                        bromine::error::Error::BuildError(_) => "build",
                        _ => "other",
                    };
                    log::ev("built", json!({"obj": num(s, "obj"), "n": num(s, "n"), "ok": false, "err": e}));
                }
            }
        }
        "bundle" => {
            let (g, a, n) = (num(s, "g"), num(s, "as"), num(s, "n"));
            let x: Vec<_> = (0..n).map(|_| w.guards[&g].clone()).collect();
            w.many.insert(a, x);
            log::ev("bundle", json!({"g": g, "as": a, "n": n}));
        }
        "unbundle" => {
            let (g, n) = (num(s, "g"), num(s, "n"));
            let v = w.many.get_mut(&g).unwrap();
            v.truncate(v.len() - n as usize);
            log::ev("unbundle", json!({"g": g, "n": n}));
        }
        // operations of several threads at once, each with its own guards and pools
        "par" => {
            let ths = s["threads"].as_array().unwrap();
            let bar = Arc::new(Barrier::new(ths.len()));
            let js: Vec<_> = ths
                .iter()
                .enumerate()
                .map(|(i, t)| {
                    let mut mine = W { h: w.h.clone(), pools: HashMap::new(), guards: HashMap::new(), many: HashMap::new() };
                    for x in t["pools"].as_array().unwrap() {
                        let x = x.as_u64().unwrap();
                        mine.pools.insert(x, w.pools.remove(&x).unwrap());
                    }
                    for x in t["guards"].as_array().unwrap() {
                        let x = x.as_u64().unwrap();
                        mine.guards.insert(x, w.guards.remove(&x).unwrap());
                    }
                    let (ops, bar) = (t["ops"].clone(), bar.clone());
                    std::thread::spawn(move || {
                        bar.wait();
                        for o in ops.as_array().unwrap() {
                            op(&mut mine, o, i + 1);
                        }
                        mine
                    })
                })
                .collect();
            for j in js {
                let m = j.join().expect("thread");
                w.pools.extend(m.pools);
                w.guards.extend(m.guards);
            }
        }
        // one pool shared by all threads, that is hardly used: counts go from nothing to one and back
        "bare" => {
            let (n, threads) = (num(s, "n"), num(s, "threads"));
            let p = &w.pools[&num(s, "obj")];
            let bar = Barrier::new(threads as usize);
            std::thread::scope(|sc| {
                for t in 0..threads {
                    let bar = &bar;
                    sc.spawn(move || {
                        bar.wait();
                        for i in 0..n {
                            let g = p.acquire();
                            if (i + t) % 7 == 0 {
                                drop(g.clone());
                            }
                            if (i + t) % 64 == 0 {
                                drop(p.clone());
                            }
                        }
                    });
                }
            });
            log::ev("stress", json!({}));
        }
        // a lot of them without keeping anything
        "stress" => {
            let n = num(s, "n");
            let bar = Arc::new(Barrier::new(num(s, "threads") as usize));
            let js: Vec<_> = (0..num(s, "threads"))
                .map(|t| {
                    let p = w.pools[&num(s, "obj")].clone();
                    let bar = bar.clone();
                    std::thread::spawn(move || {
                        bar.wait();
                        let mut keep = std::collections::VecDeque::new();
                        for i in 0..n {
                            let g = p.acquire();
                            if (i + t) % 3 == 0 {
                                keep.push_back(g.clone());
                            }
                            if (i + t) % 5 == 0 {
                                drop(p.clone());
                            }
                            keep.push_back(g);
                            while keep.len() > 4 {
                                keep.pop_front();
                            }
                        }
                    })
                })
                .collect();
            for j in js {
                j.join().expect("thread");
            }
            log::ev("stress", json!({}));
        }
        _ => op(w, s, 0),
    }
}

pub fn run(i: usize, sc: &Value) {
    mem::reset();
    mem::net(|n| n.raw = sc["raw"].as_array().unwrap().iter().map(|a| a.as_u64().unwrap()).collect());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    log::begin(i);
    let mut w = W { h: rt.handle().clone(), pools: HashMap::new(), guards: HashMap::new(), many: HashMap::new() };
    for s in sc["steps"].as_array().unwrap() {
        step(&mut w, &rt, s);
    }
    log::ev("end", json!({}));
    log::end();
    drop(w);
    drop(rt);
    mem::reset();
}
