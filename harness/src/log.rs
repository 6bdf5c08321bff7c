//! The recorded execution: one JSON object per line, written through at once so
//! that nothing is lost if the process dies.
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::Write;
use std::sync::Mutex;
use tokio::time::Instant;

pub struct Log {
    file: Option<File>,
    scenario: usize,
    start: Option<Instant>,
    ids: HashMap<u64, u64>,
    pub frozen: bool,
}

static LOG: Mutex<Option<Log>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    let mut guard = LOG.lock().unwrap_or_else(|e| e.into_inner());
    let log = guard.get_or_insert_with(|| Log {
        file: None,
        scenario: 0,
        start: None,
        ids: HashMap::new(),
        frozen: true,
    });
    f(log)
}

pub fn open(path: &str) {
    let file = std::fs::OpenOptions::new().create(true).append(true).open(path).expect("open log");
    with(|l| l.file = Some(file));
}

/// Starts the record of the next scenario. Must be called inside of the runtime.
pub fn begin(scenario: usize) {
    with(|l| {
        l.scenario = scenario;
        l.start = Some(Instant::now());
        l.ids.clear();
        l.frozen = false;
    });
}

/// Goes on after `end`
pub fn resume() {
    with(|l| l.frozen = false);
}

pub fn end() {
    with(|l| l.frozen = true);
}

/// Event ids are 64 bit numbers, TLC's integers have 32 bits: number them.
pub fn id(id: u64) -> u64 {
    with(|l| {
        let n = l.ids.len() as u64 + 1;
        *l.ids.entry(id).or_insert(n)
    })
}

pub fn now_ms() -> u64 {
    with(|l| match (l.start, tokio::runtime::Handle::try_current()) {
        (Some(s), Ok(_)) => s.elapsed().as_millis() as u64,
        _ => 0,
    })
}

static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// How many events were recorded
pub fn count() -> u64 {
    COUNT.load(std::sync::atomic::Ordering::SeqCst)
}

/// Records an event.
pub fn ev(kind: &str, fields: Value) {
    ev_at(kind, fields, None)
}

pub fn ev_at(kind: &str, fields: Value, at: Option<u64>) {
    COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let in_rt = tokio::runtime::Handle::try_current().is_ok();
    with(|l| {
        if l.frozen {
            return;
        }
        let mut m = match fields {
            Value::Object(m) => m,
            _ => Map::new(),
        };
        let t = match l.start {
            Some(s) if in_rt => s.elapsed().as_millis() as u64,
            _ => 0,
        };
        m.insert("e".into(), json!(kind));
        m.insert("t".into(), json!(at.unwrap_or(t)));
        m.insert("s".into(), json!(l.scenario));
        let mut line = Value::Object(m).to_string();
        line.push('\n');
        if let Some(f) = l.file.as_mut() {
            f.write_all(line.as_bytes()).expect("write log");
        }
    });
}
