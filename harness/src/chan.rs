//! Encrypted connections on a network that belongs to the scenario. Every byte an end sends
//! is seen here first. The harness knows all static secrets, so it can decrypt what is sent and
//! tell which key, nonce and data each package has. What reaches an end is compared with what was
//! sent; it is either a known package or forged. Nothing is judged.
use crate::core::{flavor, num, parked, settle, st};
use crate::log;
use crate::mem::{MemRead, MemWrite, Pipe};
use async_trait::async_trait;
use bromine::prelude::encrypted::{EncryptedListener, EncryptedReadStream, EncryptedStream, EncryptedWriteStream, EncryptionOptions};
use bromine::error::{Error as IPCError, Result as IPCResult};
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
use chacha20poly1305::aead::Aead;
use chacha20poly1305::{ChaCha20Poly1305, Key, KeyInit, Nonce};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::{mpsc, Notify};
use x25519_dalek::{PublicKey, StaticSecret};

// ---- the transport below the encryption ----

pub struct ChanStream {
    read: MemRead,
    write: MemWrite,
}

impl AsyncRead for ChanStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.read).poll_read(cx, buf)
    }
}

impl AsyncWrite for ChanStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.write).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.write).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.write).poll_shutdown(cx)
    }
}

impl AsyncProtocolStreamSplit for ChanStream {
    type OwnedSplitReadHalf = MemRead;
    type OwnedSplitWriteHalf = MemWrite;
    fn protocol_into_split(self) -> (MemRead, MemWrite) {
        (self.read, self.write)
    }
}

fn stream_of(c: usize) -> Option<ChanStream> {
    let (inp, out) = with(|w| w.ends.get(&c).and_then(|e| Some((e.inp.clone()?, e.out.clone()?))))?;
    Some(ChanStream { read: MemRead(inp), write: MemWrite(out) })
}

#[async_trait]
impl AsyncProtocolStream for ChanStream {
    type AddressType = u64;
    type StreamOptions = ();
    /// the address is the number of the end
    async fn protocol_connect(address: u64, _: ()) -> IPCResult<Self> {
        stream_of(address as usize).ok_or_else(|| IPCError::from("nobody listens"))
    }
}

pub struct ChanListener {
    rx: tokio::sync::Mutex<mpsc::UnboundedReceiver<usize>>,
}

#[async_trait]
impl AsyncStreamProtocolListener for ChanListener {
    type AddressType = u64;
    type RemoteAddressType = u64;
    type Stream = ChanStream;
    type ListenerOptions = ();
    async fn protocol_bind(address: u64, _: ()) -> IPCResult<Self> {
        let (tx, rx) = mpsc::unbounded_channel();
        with(|w| w.listeners.insert(address, tx));
        Ok(ChanListener { rx: tokio::sync::Mutex::new(rx) })
    }
    async fn protocol_accept(&self) -> IPCResult<(ChanStream, u64)> {
        let c = self.rx.lock().await.recv().await.ok_or_else(|| IPCError::from("closed"))?;
        Ok((stream_of(c).expect("end"), c as u64))
    }
}

// ---- what is known about the ends ----

type Stream = EncryptedStream<ChanStream>;

enum Io {
    None,
    Whole(Stream),
    Split(EncryptedReadStream<MemRead>, EncryptedWriteStream<MemWrite>),
}

type OpFuture = Pin<Box<dyn Future<Output = ()> + Send>>;

/// an operation in progress
#[derive(Clone, Default)]
struct Cell(Arc<Mutex<Option<OpFuture>>>);

enum Item {
    Bytes(Vec<u8>),
    Eof,
}

struct End {
    server: bool,
    raw: bool,
    split: bool,
    peer: usize,
    secret: StaticSecret,
    nobodys: bool,
    claimed: PublicKey,
    out: Option<Pipe>,
    inp: Option<Pipe>,
    io: Arc<Mutex<Io>>,
    cells: [Cell; 3], // write side, read side, handshake
    auto: bool,
    // what it sends
    outbuf: Vec<u8>,
    outtail: Vec<u8>,
    hk: Option<Vec<u8>>,
    hist: Vec<Vec<u8>>,
    ndata: u64,
    q: VecDeque<Item>,
    // what reaches it
    inb: Vec<u8>,
    ended: bool,
    got: bool,
    dh: Option<[u8; 32]>,
    session: Option<[u8; 32]>,
    // data
    rng: u64,
    lab: Vec<u8>,
    lp: usize,
    starts: Vec<usize>,
    avoid: Vec<u8>,
    emitted: usize, // decoding positions
    read: usize,
    cur: Option<(u64, char)>,
    curr: Option<u64>,
    wrote_len: usize,
}

#[derive(Default)]
struct World {
    ends: HashMap<usize, End>,
    listeners: HashMap<u64, mpsc::UnboundedSender<usize>>,
    cancels: HashMap<u64, Arc<Notify>>,
    idents: Vec<[u8; 32]>,
    keys: Vec<[u8; 32]>,
    table: HashMap<Vec<u8>, Vec<(usize, usize)>>,
    clear: HashSet<[u8; 8]>,
    ops: u64,
    tasks: Vec<tokio::task::JoinHandle<()>>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(World::default))
}

fn next(r: &mut u64) -> u64 {
    *r ^= *r << 13;
    *r ^= *r >> 7;
    *r ^= *r << 17;
    *r >> 16
}

/// Identities from 17 on are public keys of small order, no secret belongs to them.
const NOBODYS: [&str; 7] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
];

fn nobodys(i: u64) -> bool {
    (17..24).contains(&i)
}

/// Identities from 31 on have public keys that look like those of 1 to 7: the same first two
/// bytes, the same last two, the same sum and xor of all bytes, the same first and last byte
const LIKE: [u64; 28] = [
    45336, 60437, 27046, 15926, 18249, 50699, 40712, 11122, 19459, 17568, 10313, 22886, 355976, 17550, 53066, 32510,
    28600, 127386, 54000, 87611, 59529, 14042, 53639, 22948, 93493, 80464, 28819, 40127,
];

fn secret_of(i: u64) -> StaticSecret {
    let i = if (31..59).contains(&i) { LIKE[i as usize - 31] } else { i };
    let mut b = [0u8; 32];
    let mut r = i.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
    for x in b.iter_mut() {
        *x = next(&mut r) as u8;
    }
    StaticSecret::from(b)
}

fn public_of(i: u64) -> PublicKey {
    if nobodys(i) {
        let mut b = [0u8; 32];
        for (x, h) in b.iter_mut().zip(NOBODYS[i as usize - 17].as_bytes().chunks(2)) {
            *x = u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap();
        }
        return PublicKey::from(b);
    }
    PublicKey::from(&secret_of(i))
}

fn short(k: &[u8]) -> String {
    k[..8].iter().map(|b| format!("{:02x}", b)).collect()
}

fn nonce(n: u64) -> Nonce {
    let b = n.to_be_bytes();
    let mut x = [0u8; 12];
    x[..8].copy_from_slice(&b);
    x[8..].copy_from_slice(&b[..4]);
    x.into()
}

fn open(key: &[u8; 32], n: u64, data: &[u8]) -> Option<Vec<u8>> {
    ChaCha20Poly1305::new(Key::from_slice(key)).decrypt(&nonce(n), data).ok()
}

fn seal(key: &[u8; 32], n: u64, data: &[u8]) -> Vec<u8> {
    let c = ChaCha20Poly1305::new(Key::from_slice(key)).encrypt(&nonce(n), data).unwrap();
    let mut v = (c.len() as u32).to_be_bytes().to_vec();
    v.extend(c);
    v
}

impl End {
    /// n fresh bytes from the label `a` on
    fn bytes(&mut self, a: usize, n: usize) -> Vec<u8> {
        while self.lab.len() < a + n {
            let b = next(&mut self.rng) as u8;
            if self.lab.len() == a && self.avoid.contains(&b) {
                continue;
            }
            self.lab.push(b);
        }
        self.lab[a..a + n].to_vec()
    }

    fn secrets(&self, from: usize) -> Vec<[u8; 8]> {
        let mut v = vec![];
        let mut i = (from + 7) / 8 * 8;
        while i + 8 <= self.lab.len() {
            v.push(self.lab[i..i + 8].try_into().unwrap());
            i += 8;
        }
        v
    }

    /// Which bytes are these? `at` is where they are expected to continue.
    fn chunks(&self, at: &mut usize, data: &[u8]) -> Value {
        let mut ch: Vec<(i64, usize)> = vec![];
        let mut p = *at;
        let mut i = 0;
        while i < data.len() {
            if p >= self.lab.len() || self.lab[p] != data[i] {
                let rest = &data[i..(i + 12).min(data.len())];
                let fits = |q: usize| q + rest.len() <= self.lab.len() && self.lab[q..q + rest.len()] == *rest;
                let found = self
                    .starts
                    .iter()
                    .copied()
                    .filter(|q| *q >= p)
                    .find(|q| fits(*q))
                    .or_else(|| if rest.len() >= 6 { (0..self.lab.len()).find(|q| fits(*q)) } else { None });
                match found {
                    Some(q) => p = q,
                    None => {
                        ch.push((-1, data.len() - i));
                        break;
                    }
                }
            }
            let q = p;
            let i0 = i;
            while i < data.len() && p < self.lab.len() && self.lab[p] == data[i] {
                p += 1;
                i += 1;
            }
            ch.push((q as i64, i - i0));
        }
        *at = p;
        json!(ch.iter().map(|(a, n)| json!({"a": a, "n": n})).collect::<Vec<_>>())
    }
}

fn ident(w: &World, k: &[u8]) -> i64 {
    // unknown keys get numbers, too
    match w.idents.iter().position(|i| i[..] == *k) {
        Some(p) => p as i64 + 1,
        None => -1,
    }
}

/// An end sends bytes (or closes its direction).
fn emitted(c: usize, b: Option<&[u8]>) {
    let (auto, peer) = with(|w| {
        let b = match b {
            None => {
                log::ev("weof", json!({"c": c}));
                let e = w.ends.get_mut(&c).unwrap();
                if !e.auto {
                    e.q.push_back(Item::Eof);
                }
                return (e.auto, e.peer);
            }
            Some(b) => b,
        };
        // something that must not be seen?
        let mut scan = std::mem::take(&mut w.ends.get_mut(&c).unwrap().outtail);
        scan.extend_from_slice(b);
        if let Some(x) = scan.windows(8).find(|x| w.clear.contains(*x)) {
            log::ev("clear", json!({"c": c, "what": short(x)}));
        }
        let n = scan.len().saturating_sub(7);
        w.ends.get_mut(&c).unwrap().outtail = scan.split_off(n);
        let mut buf = std::mem::take(&mut w.ends.get_mut(&c).unwrap().outbuf);
        buf.extend_from_slice(b);
        let mut used = 0;
        loop {
            let rest = &buf[used..];
            let item = if w.ends[&c].hk.is_none() {
                if rest.len() < 32 {
                    break;
                }
                rest[..32].to_vec()
            } else {
                if rest.len() < 4 {
                    break;
                }
                let n = u32::from_be_bytes(rest[..4].try_into().unwrap()) as usize;
                if rest.len() < 4 + n {
                    break;
                }
                rest[..4 + n].to_vec()
            };
            used += item.len();
            if w.ends[&c].hk.is_none() {
                log::ev("hk", json!({"c": c, "id": ident(w, &item)}));
                w.ends.get_mut(&c).unwrap().hk = Some(item.clone());
            } else {
                package(w, c, &item);
            }
            let e = w.ends.get_mut(&c).unwrap();
            if !e.auto {
                e.q.push_back(Item::Bytes(item));
            }
        }
        buf.drain(..used);
        let e = w.ends.get_mut(&c).unwrap();
        e.outbuf = buf;
        (e.auto, e.peer)
    });
    if auto {
        deliver(peer, b);
    }
}

/// A complete package was sent by c.
fn package(w: &mut World, c: usize, item: &[u8]) {
    let e = &w.ends[&c];
    let (i, nd) = (e.hist.len() + 1, e.ndata);
    let first = e.server && e.hist.is_empty();
    let body = &item[4..];
    let mut found = None;
    let likely = if first { e.dh.map(|k| (k, 0)) } else { e.session.map(|k| (k, nd)) };
    if let Some((k, n)) = likely {
        found = open(&k, n, body).map(|p| (k, n, p));
    }
    if found.is_none() {
        let keys = w.keys.clone();
        'all: for k in keys {
            for n in 0..nd + 4 {
                if let Some(p) = open(&k, n, body) {
                    found = Some((k, n, p));
                    break 'all;
                }
            }
        }
    }
    let e = w.ends.get_mut(&c).unwrap();
    e.hist.push(item.to_vec());
    if !first {
        e.ndata += 1;
    }
    let mut newkey = None;
    match found {
        None => log::ev("pk", json!({"c": c, "i": i, "key": "?", "n": -1, "hs": false, "sec": "", "ch": [], "len": body.len()})),
        Some((k, n, p)) => {
            if first {
                log::ev("pk", json!({"c": c, "i": i, "key": short(&k), "n": n, "hs": true,
                    "sec": if p.len() == 32 { short(&p) } else { "?".into() }, "all": p, "ch": [], "len": body.len()}));
                if p.len() == 32 {
                    let s: [u8; 32] = p[..].try_into().unwrap();
                    e.session = Some(s);
                    newkey = Some(s);
                }
            } else {
                let mut at = e.emitted;
                let ch = e.chunks(&mut at, &p);
                e.emitted = at;
                log::ev("pk", json!({"c": c, "i": i, "key": short(&k), "n": n, "hs": false, "sec": "", "ch": ch, "len": body.len()}));
            }
        }
    }
    if let Some(s) = newkey {
        w.keys.push(s);
        for x in s.chunks(8) {
            w.clear.insert(x.try_into().unwrap());
        }
    }
    w.table.entry(item.to_vec()).or_default().push((c, i));
}

/// Bytes reach an end.
fn deliver(c: usize, b: Option<&[u8]>) {
    let (inp, raw) = with(|w| {
        let e = match w.ends.get_mut(&c) {
            Some(e) if !e.ended => e,
            _ => return (None, false),
        };
        match b {
            None => {
                e.ended = true;
                log::ev("aeof", json!({"c": c}))
            }
            Some(b) => {
                let mut buf = std::mem::take(&mut e.inb);
                buf.extend_from_slice(b);
                let mut used = 0;
                loop {
                    let rest = &buf[used..];
                    if !w.ends[&c].got {
                        if rest.len() < 32 {
                            break;
                        }
                        let k: [u8; 32] = rest[..32].try_into().unwrap();
                        used += 32;
                        let e = &w.ends[&c];
                        let dh = match e.nobodys {
                            true => [0; 32],
                            false => e.secret.diffie_hellman(&PublicKey::from(k)).to_bytes(),
                        };
                        log::ev("ahk", json!({"c": c, "id": ident(w, &k), "dh": short(&dh)}));
                        let e = w.ends.get_mut(&c).unwrap();
                        e.got = true;
                        e.dh = Some(dh);
                        if !w.keys.contains(&dh) {
                            w.keys.push(dh);
                        }
                    } else {
                        if rest.len() < 4 {
                            break;
                        }
                        let n = u32::from_be_bytes(rest[..4].try_into().unwrap()) as usize;
                        if rest.len() < 4 + n {
                            break;
                        }
                        let item = &rest[..4 + n];
                        used += 4 + n;
                        let peer = w.ends[&c].peer;
                        // the same bytes might have been sent by several
                        let (f, i) = w
                            .table
                            .get(item)
                            .and_then(|v| v.iter().find(|x| x.0 == peer).or(v.first()).copied())
                            .unwrap_or((0, 0));
                        log::ev("apk", json!({"c": c, "f": f, "i": i}));
                        let e = w.ends.get_mut(&c).unwrap();
                        if !e.server && e.session.is_none() {
                            if let Some(p) = e.dh.and_then(|k| open(&k, 0, &item[4..])) {
                                if p.len() == 32 {
                                    let s: [u8; 32] = p[..].try_into().unwrap();
                                    e.session = Some(s);
                                    w.keys.push(s);
                                }
                            }
                        }
                    }
                }
                buf.drain(..used);
                w.ends.get_mut(&c).unwrap().inb = buf;
            }
        }
        let e = &w.ends[&c];
        (e.inp.clone(), e.raw)
    });
    if let Some(p) = inp {
        match b {
            Some(b) => p.lock().push(b),
            None => p.lock().end(false),
        }
    }
    if raw {
        raw_progress(c);
    }
}

/// A hand-written server answers the key of a client.
fn raw_progress(c: usize) {
    let todo = with(|w| {
        let e = &w.ends[&c];
        if e.server && e.got && e.hk.is_none() {
            let claimed = e.claimed;
            let dh = e.dh.unwrap();
            let e = w.ends.get_mut(&c).unwrap();
            let mut s = [0u8; 32];
            for x in s.iter_mut() {
                *x = next(&mut e.rng) as u8;
            }
            Some((claimed.as_bytes().to_vec(), seal(&dh, 0, &s)))
        } else {
            None
        }
    });
    if let Some((k, p)) = todo {
        emitted(c, Some(&k));
        emitted(c, Some(&p));
    }
}

// ---- operations of the users of the encrypted streams ----

async fn run_cell(cell: Cell) {
    std::future::poll_fn(|cx| {
        let mut g = cell.0.lock().unwrap_or_else(|e| e.into_inner());
        match g.as_mut() {
            None => Poll::Ready(()),
            Some(f) => match f.as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(()) => {
                    *g = None;
                    Poll::Ready(())
                }
            },
        }
    })
    .await
}

fn new_op() -> u64 {
    with(|w| {
        w.ops += 1;
        w.ops
    })
}

async fn write_op(c: usize, n: usize) -> bool {
    let o = new_op();
    let (io, data) = with(|w| {
        let e = w.ends.get_mut(&c).unwrap();
        let a = e.lp;
        let old = e.lab.len();
        let data = e.bytes(a, n);
        e.starts.push(a);
        e.cur = Some((o, 'w'));
        e.wrote_len = n;
        log::ev("op", json!({"o": o, "c": c, "k": "w", "a": a, "n": n}));
        let r = (e.io.clone(), data);
        let s = e.secrets(old);
        w.clear.extend(s);
        r
    });
    let r = std::future::poll_fn(|cx| {
        let mut g = io.lock().unwrap_or_else(|e| e.into_inner());
        match &mut *g {
            Io::None => Poll::Ready(None),
            Io::Whole(s) => Pin::new(s).poll_write(cx, &data).map(Some),
            Io::Split(_, w) => Pin::new(w).poll_write(cx, &data).map(Some),
        }
    })
    .await;
    finish(c, 'w', |e| match r {
        None => false,
        Some(Ok(k)) => {
            e.lp += k;
            if k > 0 {
                e.avoid.clear();
            }
            log::ev("opr", json!({"o": o, "c": c, "r": "wrote", "n": k}));
            true
        }
        Some(Err(_)) => {
            log::ev("opr", json!({"o": o, "c": c, "r": "werr", "n": 0}));
            false
        }
    })
}

fn finish(c: usize, k: char, f: impl FnOnce(&mut End) -> bool) -> bool {
    with(|w| {
        let e = w.ends.get_mut(&c).unwrap();
        if k == 'r' {
            e.curr = None;
        } else {
            e.cur = None;
        }
        f(e)
    })
}

async fn flush_op(c: usize, shutdown: bool) -> bool {
    let o = new_op();
    let io = with(|w| {
        let e = w.ends.get_mut(&c).unwrap();
        e.cur = Some((o, if shutdown { 's' } else { 'f' }));
        log::ev("op", json!({"o": o, "c": c, "k": if shutdown { "sd" } else { "f" }, "a": 0, "n": 0}));
        e.io.clone()
    });
    let r = std::future::poll_fn(|cx| {
        let mut g = io.lock().unwrap_or_else(|e| e.into_inner());
        let r = match &mut *g {
            Io::None => return Poll::Ready(None),
            Io::Whole(s) if shutdown => Pin::new(s).poll_shutdown(cx),
            Io::Whole(s) => Pin::new(s).poll_flush(cx),
            Io::Split(_, w) if shutdown => Pin::new(w).poll_shutdown(cx),
            Io::Split(_, w) => Pin::new(w).poll_flush(cx),
        };
        r.map(Some)
    })
    .await;
    finish(c, 'f', |_| match r {
        None => false,
        Some(r) => {
            let ok = r.is_ok();
            log::ev("opr", json!({"o": o, "c": c, "n": 0,
                "r": match (ok, shutdown) { (true, true) => "shut", (true, false) => "flushed", _ => "werr" }}));
            ok
        }
    })
}

async fn read_op(c: usize, m: usize) -> bool {
    let o = new_op();
    let io = with(|w| {
        let e = w.ends.get_mut(&c).unwrap();
        e.curr = Some(o);
        log::ev("op", json!({"o": o, "c": c, "k": "r", "a": 0, "n": m}));
        e.io.clone()
    });
    let mut data = vec![0u8; m];
    let r = std::future::poll_fn(|cx| {
        let mut buf = ReadBuf::new(&mut data);
        let mut g = io.lock().unwrap_or_else(|e| e.into_inner());
        let r = match &mut *g {
            Io::None => return Poll::Ready(None),
            Io::Whole(s) => Pin::new(s).poll_read(cx, &mut buf),
            Io::Split(r, _) => Pin::new(r).poll_read(cx, &mut buf),
        };
        r.map(|r| Some(r.map(|_| buf.filled().len())))
    })
    .await;
    let ch = match &r {
        Some(Ok(n)) if *n > 0 => with(|w| {
            let peer = w.ends[&c].peer;
            let mut at = w.ends[&c].read;
            let ch = match w.ends.get(&peer) {
                Some(p) => p.chunks(&mut at, &data[..*n]),
                None => json!([{"a": -1, "n": n}]),
            };
            w.ends.get_mut(&c).unwrap().read = at;
            ch
        }),
        _ => json!([]),
    };
    finish(c, 'r', |_| match r {
        None => false,
        Some(Ok(n)) if n > 0 => {
            log::ev("opr", json!({"o": o, "c": c, "r": "data", "n": n, "ch": ch}));
            true
        }
        Some(Ok(_)) => {
            log::ev("opr", json!({"o": o, "c": c, "r": "eof", "n": 0, "ch": []}));
            m == 0
        }
        Some(Err(_)) => {
            log::ev("opr", json!({"o": o, "c": c, "r": "rerr", "n": 0, "ch": []}));
            false
        }
    })
}

/// Drops what is going on at one side of an end.
fn cancel(c: usize, side: usize) {
    let cell = match with(|w| w.ends.get(&c).map(|e| e.cells[side].clone())) {
        Some(x) => x,
        None => return,
    };
    let old = cell.0.lock().unwrap().take();
    drop(old);
    with(|w| {
        let e = w.ends.get_mut(&c).unwrap();
        if side == 0 {
            if let Some((o, k)) = e.cur.take() {
                log::ev("cn", json!({"o": o, "c": c}));
                if k == 'w' && e.wrote_len > 0 {
                    let first = e.lab[e.lp];
                    e.avoid.push(first);
                    e.lp = e.lab.len();
                }
            }
        } else if let Some(o) = e.curr.take() {
            log::ev("cn", json!({"o": o, "c": c}));
        }
    });
}

fn ready(c: usize) -> bool {
    with(|w| w.ends.get(&c).map(|e| !matches!(*e.io.lock().unwrap(), Io::None)).unwrap_or(false))
}

fn start(c: usize, side: usize, f: impl Future<Output = ()> + Send + 'static) {
    cancel(c, side);
    let cell = with(|w| w.ends[&c].cells[side].clone());
    *cell.0.lock().unwrap() = Some(Box::pin(f));
    let t = tokio::spawn(run_cell(cell));
    with(|w| w.tasks.push(t));
}

fn established(c: usize, s: Stream) {
    with(|w| {
        log::ev("est", json!({"c": c}));
        let e = w.ends.get_mut(&c).unwrap();
        *e.io.lock().unwrap() = if e.split {
            let (r, wr) = s.protocol_into_split();
            Io::Split(r, wr)
        } else {
            Io::Whole(s)
        };
    })
}

// ---- scenarios ----

/// Only what the scenario says is not left at its default.
fn options(v: &Value) -> EncryptionOptions<()> {
    let mut o = EncryptionOptions::default();
    log::ev("mk", json!({"key": short(&o.keys.secret.to_bytes()), "all": o.keys.secret.to_bytes()}));
    o.keys.secret = secret_of(num(v, "id"));
    let knows: Vec<_> = v["knows"].as_array().unwrap_or(&vec![]).iter().map(|i| public_of(i.as_u64().unwrap())).collect();
    if !knows.is_empty() {
        o.keys.known_peers = knows;
    }
    if v["any"].as_bool().unwrap_or(false) {
        o.keys.allow_unknown = true;
    }
    o
}

fn new_end(c: usize, peer: usize, server: bool, raw: bool, v: &Value, seed: u64) {
    let fl = flavor(&v["flavor"]);
    // identity: the one it claims and the one whose secret it has
    let id = num(v, "id");
    let holds = v["holds"].as_u64().unwrap_or(id);
    let (out, inp) = if raw {
        (None, None)
    } else {
        let out = Pipe::new(c, 0, fl.clone());
        let inp = Pipe::new(0, c, fl);
        out.lock().untapped = true;
        inp.lock().untapped = true;
        out.lock().hook = Some(Arc::new(move |b| emitted(c, b)));
        (Some(out), Some(inp))
    };
    with(|w| {
        log::ev(
            "att",
            json!({"c": c, "peer": peer, "role": if server { "S" } else { "C" }, "raw": raw, "id": id,
                   "knows": v["knows"].as_array().unwrap_or(&vec![]), "any": v["any"].as_bool().unwrap_or(false)}),
        );
        let end = End {
            server,
            raw,
            split: v["split"].as_bool().unwrap_or(false),
            peer,
            secret: secret_of(holds),
            nobodys: nobodys(holds),
            claimed: public_of(id),
            out,
            inp,
            io: Arc::new(Mutex::new(Io::None)),
            cells: Default::default(),
            auto: v["auto"].as_bool().unwrap_or(true),
            outbuf: vec![],
            outtail: vec![],
            hk: None,
            hist: vec![],
            ndata: 0,
            q: VecDeque::new(),
            inb: vec![],
            ended: false,
            got: false,
            dh: None,
            session: None,
            rng: seed.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(c as u64 * 7919 + 1) | 1,
            lab: vec![],
            lp: 0,
            starts: vec![],
            avoid: vec![],
            emitted: 0,
            read: 0,
            cur: None,
            curr: None,
            wrote_len: 0,
        };
        w.ends.insert(c, end);
    })
}

async fn listen(l: &Value) {
    let addr = num(l, "addr");
    let options = options(l);
    let listener = match EncryptedListener::<ChanListener>::protocol_bind(addr, options).await {
        Ok(l) => l,
        Err(e) => {
            log::ev("bindfail", json!({"err": format!("{:?}", e)}));
            return;
        }
    };
    let again = Arc::new(Notify::new());
    with(|w| w.cancels.insert(addr, again.clone()));
    let t = tokio::spawn(async move {
        loop {
            tokio::select! {
                r = listener.protocol_accept() => match r {
                    Ok((s, c)) => established(c as usize, s),
                    Err(e) => {
                        log::ev("accfail", json!({"err": format!("{:?}", e)}));
                        return;
                    }
                },
                _ = again.notified() => {}
            }
        }
    });
    with(|w| w.tasks.push(t));
}

fn pop(c: usize) -> Option<Item> {
    with(|w| w.ends.get_mut(&c).and_then(|e| e.q.pop_front()))
}

fn change(c: usize, f: impl FnOnce(&mut Vec<u8>)) {
    with(|w| {
        if let Some(Some(Item::Bytes(b))) = w.ends.get_mut(&c).map(|e| e.q.front_mut()) {
            f(b)
        }
    })
}

async fn forward(c: usize, item: Item, pieces: usize) {
    let peer = with(|w| w.ends[&c].peer);
    match item {
        Item::Eof => deliver(peer, None),
        Item::Bytes(b) if pieces == 0 => deliver(peer, Some(&b)),
        Item::Bytes(b) => {
            for p in b.chunks(pieces) {
                deliver(peer, Some(p));
                tokio::task::yield_now().await;
            }
        }
    }
}

async fn step(s: &Value, sc: &Value) {
    let c = num(s, "c") as usize;
    let n = num(s, "n") as usize;
    let exists = with(|w| w.ends.contains_key(&c));
    match st(s, "do") {
        "connect" => {
            // c: client, s: server; either may be written by hand
            let (cl, sv) = (&s["client"], &s["server"]);
            let (a, b) = (num(cl, "c") as usize, num(sv, "c") as usize);
            let (ra, rb) = (cl["raw"].as_bool().unwrap_or(false), sv["raw"].as_bool().unwrap_or(false));
            let l = sc["listeners"].as_array().unwrap().iter().find(|l| num(l, "addr") == num(sv, "addr"));
            let mut svc = sv.clone();
            if let (false, Some(l)) = (rb, l) {
                for k in ["id", "knows", "any"] {
                    svc[k] = l[k].clone();
                }
            }
            let seed = num(sc, "seed");
            new_end(a, b, false, ra, cl, seed);
            new_end(b, a, true, rb, &svc, seed);
            if !rb {
                if let Some(tx) = with(|w| w.listeners.get(&num(sv, "addr")).cloned()) {
                    let _ = tx.send(b);
                }
            }
            if ra {
                let k = public_of(num(cl, "id"));
                emitted(a, Some(k.as_bytes()));
            } else {
                let options = options(cl);
                start(a, 2, async move {
                    match Stream::protocol_connect(a as u64, options).await {
                        Ok(s) => established(a, s),
                        Err(_) => log::ev("ref", json!({"c": a})),
                    }
                });
            }
        }
        "accept" => {
            // starts over with accepting
            if let Some(n) = with(|w| w.cancels.get(&num(s, "addr")).cloned()) {
                n.notify_one();
            }
        }
        "w" if ready(c) => start(c, 0, async move {
            write_op(c, n).await;
        }),
        "f" if ready(c) => start(c, 0, async move {
            flush_op(c, false).await;
        }),
        "sd" if ready(c) => start(c, 0, async move {
            flush_op(c, true).await;
        }),
        "r" if ready(c) => start(c, 1, async move {
            read_op(c, n).await;
        }),
        "wl" if ready(c) => {
            // several writes, a flush after those with a negative size
            let sizes: Vec<i64> = s["sizes"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
            start(c, 0, async move {
                for z in sizes {
                    if z > 0 {
                        let mut left = z as usize;
                        while left > 0 {
                            let before = with(|w| w.ends[&c].lp);
                            if !write_op(c, left).await {
                                return;
                            }
                            left -= with(|w| w.ends[&c].lp) - before;
                        }
                    } else if !flush_op(c, false).await {
                        return;
                    }
                }
            })
        }
        "rl" if ready(c) => {
            let sizes: Vec<usize> = s["sizes"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
            start(c, 1, async move {
                // growing, to not record too many
                let mut f = 1;
                loop {
                    for m in &sizes {
                        if !read_op(c, (*m * f).min(1 << 20)).await {
                            return;
                        }
                    }
                    f = (f * 2).min(1 << 10);
                }
            })
        }
        "cw" => cancel(c, 0),
        "cr" => cancel(c, 1),
        "close" if exists => {
            let raw = with(|w| w.ends[&c].raw);
            if raw {
                emitted(c, None);
                return;
            }
            // a server has nothing to close before it has accepted
            let connecting = with(|w| w.ends[&c].cells[2].0.lock().unwrap().is_some());
            if !connecting && !ready(c) {
                return;
            }
            log::ev("close", json!({"c": c}));
            with(|w| {
                let e = w.ends.get_mut(&c).unwrap();
                e.cur = None;
                e.curr = None;
            });
            for i in 0..3 {
                let cell = with(|w| w.ends[&c].cells[i].clone());
                let old = cell.0.lock().unwrap().take();
                drop(old);
            }
            let io = with(|w| w.ends[&c].io.clone());
            let old = std::mem::replace(&mut *io.lock().unwrap(), Io::None);
            drop(old);
        }
        // hand-written peers
        "raw" if exists => {
            // packages of the given sizes, or with the given nonce
            for z in s["sizes"].as_array().unwrap() {
                let p = with(|w| {
                    let e = w.ends.get_mut(&c).unwrap();
                    let key = match e.session {
                        Some(k) => k,
                        None => return None,
                    };
                    let old = e.lab.len();
                    let a = e.lp;
                    let data = e.bytes(a, z.as_u64().unwrap() as usize);
                    e.starts.push(a);
                    e.lp += data.len();
                    let n = s["nonce"].as_u64().unwrap_or(e.ndata);
                    let x = e.secrets(old);
                    let p = seal(&key, n, &data);
                    w.clear.extend(x);
                    Some(p)
                });
                if let Some(p) = p {
                    emitted(c, Some(&p));
                }
            }
        }
        // the network
        "auto" if exists => {
            with(|w| w.ends.get_mut(&c).unwrap().auto = s["v"].as_bool().unwrap_or(true));
            while s["v"].as_bool().unwrap_or(true) {
                match pop(c) {
                    Some(i) => forward(c, i, 0).await,
                    None => {
                        // and what isn't complete yet
                        let rest = with(|w| w.ends[&c].outbuf.clone());
                        let peer = with(|w| w.ends[&c].peer);
                        if !rest.is_empty() {
                            deliver(peer, Some(&rest));
                        }
                        break;
                    }
                }
            }
        }
        "fwd" => {
            for _ in 0..s["k"].as_u64().unwrap_or(1) {
                match pop(c) {
                    Some(i) => forward(c, i, num(s, "pieces") as usize).await,
                    None => break,
                }
            }
        }
        "lose" => drop(pop(c)),
        "dup" => change(c, |b| {
            let x = b.clone();
            b.extend(x);
        }),
        "swap" => with(|w| {
            if let Some(e) = w.ends.get_mut(&c) {
                if e.q.len() > 1 {
                    e.q.swap(0, 1);
                }
            }
        }),
        "flip" => change(c, |b| {
            let i = num(s, "at") as usize % b.len();
            // the highest bit of a public key means nothing: it would be the same key
            let bit = num(s, "bit") % if b.len() == 32 && i == 31 { 7 } else { 8 };
            b[i] ^= 1 << bit;
        }),
        "cut" => change(c, |b| b.truncate(n.max(1))),
        "grow" => change(c, |b| b.extend(vec![0xA5; n])),
        "len" => change(c, |b| {
            if b.len() >= 4 {
                b[..4].copy_from_slice(&(num(s, "v") as u32).to_be_bytes())
            }
        }),
        "inject" if exists => {
            // package i (0: the key) of the end f reaches c
            let f = num(s, "f") as usize;
            let i = num(s, "i") as usize;
            let b = with(|w| {
                let e = w.ends.get(&f)?;
                if i == 0 {
                    e.hk.clone()
                } else {
                    e.hist.get(i - 1).cloned()
                }
            });
            if let Some(b) = b {
                deliver(c, Some(&b));
            }
        }
        "garbage" if exists => {
            let mut r = num(s, "seed").wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let mut b: Vec<u8> = (0..n).map(|_| next(&mut r) as u8).collect();
            if let Some(l) = s["len"].as_u64() {
                let mut x = (l as u32).to_be_bytes().to_vec();
                x.extend(b);
                b = x;
            }
            deliver(c, Some(&b));
        }
        "key" if exists => deliver(c, Some(public_of(num(s, "id")).as_bytes())),
        "eof" if exists => deliver(c, None),
        "wblock" | "fhold" | "refuse" if exists => {
            if let Some(p) = with(|w| w.ends[&c].out.clone()) {
                match st(s, "do") {
                    "wblock" => p.lock().set_budget(s["n"].as_u64().map(|n| n as usize)),
                    "fhold" => p.lock().set_fhold(s["v"].as_bool().unwrap_or(true)),
                    _ => p.lock().refuse(),
                }
            }
        }
        "yield" => {
            for _ in 0..n.max(1) {
                tokio::task::yield_now().await;
            }
        }
        "settle" => settle().await,
        // not possible at this point
        "w" | "f" | "sd" | "r" | "wl" | "rl" | "close" | "raw" | "auto" | "inject" | "garbage" | "key" | "eof" | "wblock" | "fhold" | "refuse" => {}
        o => panic!("unknown step {}", o),
    }
}

async fn scenario(sc: &Value) {
    with(|w| {
        w.idents = (1..59u64).map(|i| *public_of(i).as_bytes()).collect();
        for i in (1..=16).chain(31..59) {
            for x in secret_of(i).to_bytes().chunks(8) {
                w.clear.insert(x.try_into().unwrap());
            }
        }
    });
    for l in sc["listeners"].as_array().unwrap() {
        listen(l).await;
    }
    for s in sc["steps"].as_array().unwrap() {
        step(s, sc).await;
    }
    crate::alloc::report();
    log::ev("end", json!({}));
}

fn reset() {
    let old = WORLD.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some(mut w) = old {
        for t in w.tasks.drain(..) {
            t.abort();
        }
        // let go of what the ends hold while nothing can be found anymore
        for e in w.ends.values_mut() {
            if let Some(p) = &e.out {
                p.lock().hook = None;
            }
        }
        drop(w);
    }
}

pub fn run(i: usize, sc: &Value) {
    reset();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).on_thread_park(parked).build().unwrap();
    rt.block_on(async {
        log::begin(i);
        crate::alloc::reset();
        scenario(sc).await;
        log::end();
    });
    log::end();
    reset();
    drop(rt);
    reset();
}
