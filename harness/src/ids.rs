//! Makes many events, as fast as possible, on several threads, whatever the clock does.
use crate::{core, log, mem};
use bromine::event::Event;
use bromine::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, AtomicU8, Ordering};
use std::sync::{Arc, Barrier};

/// 0: the real clock, 1: it stands still, 2: it runs backwards, 3: it jumps
static CLOCK: AtomicU8 = AtomicU8::new(0);
static TICKS: AtomicI64 = AtomicI64::new(0);
static AT: AtomicI64 = AtomicI64::new(0);

/// The wall clock of this process (not the monotonic one)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let mode = CLOCK.load(Ordering::Relaxed);
    if mode == 0 || clk != libc::CLOCK_REALTIME {
        return libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int;
    }
    let n = TICKS.fetch_add(1, Ordering::Relaxed);
    let ms = AT.load(Ordering::Relaxed)
        + match mode {
            1 => 0,
            2 => -n,
            _ => [0, 1, 999, 1000, -1, 0, 65_535_000, 12][(n % 8) as usize],
        };
    (*ts).tv_sec = ms.div_euclid(1000) as libc::time_t;
    (*ts).tv_nsec = (ms.rem_euclid(1000) * 1_000_000) as _;
    0
}

fn set_clock(name: &str) {
    AT.store(1_700_000_000_000, Ordering::Relaxed);
    TICKS.store(0, Ordering::Relaxed);
    CLOCK.store(
        match name {
            "frozen" => 1,
            "back" => 2,
            "jump" => 3,
            _ => 0,
        },
        Ordering::Relaxed,
    );
}

fn make(kind: &str, n: u64) -> Event {
    let d = bromine::bytes::Bytes::new();
    match kind {
        "I" => Event::initiator(None, "x".into(), d),
        "R" => Event::response(Some("n".into()), "x".into(), d, n),
        "E" => Event::end(None, "x".into(), d, n),
        _ => Event::error(None, "x".into(), d, n),
    }
}

/// Numbers the ids; equal ids have equal numbers
fn number(seen: &mut HashMap<u64, usize>, ids: &[u64], th: usize) {
    let (mut from, mut n) = (0, 0);
    for id in ids {
        let k = seen.len() + 1;
        let k = *seen.entry(*id).or_insert(k);
        if n > 0 && k == from + n {
            n += 1;
        } else {
            if n > 0 {
                log::ev("ids", json!({"th": th, "from": from, "n": n}));
            }
            from = k;
            n = 1;
        }
    }
    if n > 0 {
        log::ev("ids", json!({"th": th, "from": from, "n": n}));
    }
}

pub fn run(i: usize, sc: &Value) {
    mem::reset();
    log::begin(i);
    let mut seen = HashMap::new();
    for s in sc["steps"].as_array().unwrap() {
        set_clock(core::st(s, "clock"));
        let threads = core::num(s, "threads") as usize;
        let n = core::num(s, "n") as usize;
        if core::st(s, "do") == "make" {
            let kinds: Vec<String> = s["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
            let bar = Arc::new(Barrier::new(threads));
            let js: Vec<_> = (0..threads)
                .map(|th| {
                    let (kinds, bar) = (kinds.clone(), bar.clone());
                    std::thread::spawn(move || {
                        bar.wait();
                        (0..n).map(|k| make(&kinds[(k + th) % kinds.len()], k as u64).id()).collect::<Vec<u64>>()
                    })
                })
                .collect();
            if s["mass"].as_bool().unwrap_or(false) {
                // too many to number each; only used where none were made before
                let mut all: Vec<u64> = js.into_iter().flat_map(|j| j.join().expect("thread")).collect();
                let n = all.len();
                all.sort_unstable();
                all.dedup();
                log::ev("ids", json!({"th": 0, "from": 1, "n": all.len()}));
                if all.len() < n {
                    log::ev("ids", json!({"th": 0, "from": 1, "n": n - all.len()}));
                }
            } else {
                for (th, j) in js.into_iter().enumerate() {
                    number(&mut seen, &j.join().expect("thread"), th);
                }
            }
        } else {
            // emissions and the replies to them, on several connections
            log::end();
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
            let told = rt.block_on(async move {
                for addr in 1..3u64 {
                    tokio::spawn(
                        IPCBuilder::<mem::MemListener>::new()
                            .address(addr)
                            .on("e", |ctx, event| {
                                Box::pin(async move {
                                    ctx.emit("r", BytePayload::new(vec![])).await?;
                                    if event.data_raw().is_empty() {
                                        return Err("failed".into());
                                    }
                                    Ok(Response::empty())
                                })
                            })
                            .build_server(),
                    );
                }
                mem::listening(1).await;
                mem::listening(2).await;
                let mut js = vec![];
                for th in 0..threads {
                    let ctx = IPCBuilder::<mem::MemListener>::new().address(1 + th as u64 % 2).build_client().await.expect("client");
                    js.push(tokio::spawn(async move {
                        let mut told = vec![];
                        for k in 0..n {
                            let p = BytePayload::new(vec![1; k % 2]);
                            match k % 3 {
                                0 => told.push(ctx.emit("e", p).await.expect("emit")),
                                1 => {
                                    let _ = ctx.emit("e", p).await_reply().await;
                                }
                                _ => {
                                    use futures::StreamExt;
                                    let mut s = ctx.emit_to("q", "e", p).stream_replies().await.expect("stream");
                                    while let Some(Ok(_)) = s.next().await {}
                                }
                            }
                        }
                        told
                    }));
                }
                let mut told = vec![];
                for j in js {
                    told.extend(j.await.expect("task"));
                }
                tokio::time::sleep(std::time::Duration::from_millis(30)).await;
                told
            });
            let frames: Vec<Vec<u64>> = mem::net(|n| n.conns.iter().map(|c| c.out.lock().frames.iter().map(|f| f.id).collect()).collect());
            drop(rt);
            log::resume();
            let all: std::collections::HashSet<u64> = frames.iter().flatten().copied().collect();
            for (th, f) in frames.iter().enumerate() {
                number(&mut seen, f, th);
            }
            // the ids the emitters were told are those of their events
            log::ev("told", json!({"n": told.len(), "found": told.iter().filter(|x| all.contains(x)).count()}));
            mem::reset();
        }
    }
    set_clock("real");
    log::ev("end", json!({}));
    log::end();
    mem::reset();
}
