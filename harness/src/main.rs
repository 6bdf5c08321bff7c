mod alloc;
mod built;
#[cfg(feature = "full")]
mod chan;
mod core;
mod frame;
mod ids;
mod leak;
mod log;
mod mem;
#[cfg(feature = "payload")]
mod payload;
mod pool;
mod store;
mod tap;
mod wire;

use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);

/// A scenario that makes no progress is reported, like a crash, by whoever started us.
fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = usize::MAX;
        let mut n = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CURRENT.load(Ordering::SeqCst);
            n = if c == last { n + 1 } else { 0 };
            last = c;
            if c != usize::MAX && n >= secs * 2 {
                log::ev("hang", json!({}));
                std::process::exit(3);
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (mode, input, out) = (args[1].as_str(), args[2].as_str(), args[3].as_str());
    let from: usize = args.get(4).map(|a| a.parse().unwrap()).unwrap_or(0);
    log::open(out);
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if msg != "SCENARIO-PANIC" {
            let at = info.location().map(|l| l.to_string()).unwrap_or_default();
            log::ev("panic", json!({"msg": msg, "at": at}));
            eprintln!("panic: {} at {}", msg, at);
        }
    }));
    watchdog(40);
    let text = std::fs::read_to_string(input).expect("scenarios");
    for (i, line) in text.lines().enumerate() {
        if i < from || line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(line).expect("scenario");
        CURRENT.store(i, Ordering::SeqCst);
        match mode {
            "core" => match sc["transport"].as_str().unwrap_or("mem") {
                "mem" => core::run::<core::Mem>(i, &sc),
                "tcp" => core::run::<tap::Tapped<tap::Tcp>>(i, &sc),
                "unix" => core::run::<tap::Tapped<tap::Unix>>(i, &sc),
                #[cfg(feature = "full")]
                "enc" => core::run::<tap::Tapped<tap::Enc<tap::Carrier>>>(i, &sc),
                #[cfg(feature = "full")]
                "enctcp" => core::run::<tap::Tapped<tap::Enc<tap::Tcp>>>(i, &sc),
                #[cfg(feature = "full")]
                "encunix" => core::run::<tap::Tapped<tap::Enc<tap::Unix>>>(i, &sc),
                t => panic!("unknown transport {}", t),
            },
            #[cfg(feature = "full")]
            "chan" => chan::run(i, &sc),
            #[cfg(feature = "payload")]
            "payload" => payload::run(i, &sc),
            "built" => built::run(i, &sc),
            "leak" => leak::run(i, &sc),
            "ids" => ids::run(i, &sc),
            "pool" => pool::run(i, &sc),
            "wire" => wire::run(i, &sc),
            "store" => store::run(i, &sc),
            m => panic!("unknown mode {}", m),
        }
    }
}
