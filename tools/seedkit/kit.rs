#![allow(dead_code)]
//! Small helpers: a peer that speaks the wire format by hand, and places to connect.
use std::path::PathBuf;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

pub const INITIATOR: u8 = 0;
pub const RESPONSE: u8 = 1;
pub const END: u8 = 2;
pub const ERROR: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub id: u64,
    pub ty: u8,
    pub re: Option<u64>,
    pub ns: Vec<u8>,
    pub name: Vec<u8>,
    pub data: Vec<u8>,
}

pub fn frame(id: u64, ty: u8, re: Option<u64>, ns: &str, name: &str, data: &[u8]) -> Frame {
    Frame { id, ty, re, ns: ns.into(), name: name.into(), data: data.into() }
}

impl Frame {
    pub fn header(&self) -> Vec<u8> {
        let mut h = vec![0, 9, 0];
        h.extend(self.id.to_be_bytes());
        h.push(self.ty);
        match self.re {
            Some(r) => {
                h.push(0xFF);
                h.extend(r.to_be_bytes());
            }
            None => h.push(0),
        }
        h.extend((self.ns.len() as u16).to_be_bytes());
        h.extend(&self.ns);
        h.extend((self.name.len() as u16).to_be_bytes());
        h.extend(&self.name);
        h
    }
    pub fn encode(&self) -> Vec<u8> {
        whole(&self.header(), &self.data)
    }
}

pub fn whole(header: &[u8], data: &[u8]) -> Vec<u8> {
    let mut b = ((header.len() + data.len()) as u64).to_be_bytes().to_vec();
    b.extend((header.len() as u16).to_be_bytes());
    b.extend(header);
    b.extend(data);
    b
}

/// Reads one frame, or None if none comes within the given time
pub async fn read_frame<R: AsyncRead + Unpin>(r: &mut R, ms: u64) -> Option<Frame> {
    tokio::time::timeout(Duration::from_millis(ms), async {
        let total = r.read_u64().await.ok()?;
        let hl = r.read_u16().await.ok()?;
        let mut h = vec![0; hl as usize];
        r.read_exact(&mut h).await.ok()?;
        let mut data = vec![0; (total - hl as u64) as usize];
        r.read_exact(&mut data).await.ok()?;
        let mut p = 3;
        let mut take = |n: usize| {
            p += n;
            h[p - n..p].to_vec()
        };
        let id = u64::from_be_bytes(take(8).try_into().unwrap());
        let ty = take(1)[0];
        let re = if take(1)[0] == 0xFF { Some(u64::from_be_bytes(take(8).try_into().unwrap())) } else { None };
        let n = u16::from_be_bytes(take(2).try_into().unwrap());
        let ns = take(n as usize);
        let n = u16::from_be_bytes(take(2).try_into().unwrap());
        let name = take(n as usize);
        Some(Frame { id, ty, re, ns, name, data })
    })
    .await
    .ok()
    .flatten()
}

pub async fn send<W: AsyncWrite + Unpin>(w: &mut W, f: &Frame) {
    w.write_all(&f.encode()).await.unwrap();
    w.flush().await.unwrap();
}

/// A path for a socket in the scratch directory of the demonstration
pub fn path(name: &str) -> PathBuf {
    PathBuf::from(std::env::var("DEMO_DIR").expect("DEMO_DIR")).join(name)
}

pub async fn connect(p: &PathBuf) -> tokio::net::UnixStream {
    for _ in 0..500 {
        if let Ok(s) = tokio::net::UnixStream::connect(p).await {
            return s;
        }
        sleep(10).await;
    }
    panic!("nobody listens on {:?}", p);
}

pub async fn bound(p: &PathBuf) {
    for _ in 0..500 {
        if p.exists() {
            return;
        }
        sleep(10).await;
    }
    panic!("nobody listens on {:?}", p);
}

pub async fn sleep(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}

/// Gives up after the given time
pub async fn within<F: std::future::Future>(ms: u64, f: F) -> Option<F::Output> {
    tokio::time::timeout(Duration::from_millis(ms), f).await.ok()
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            println!("FAIL: {}", format!($($t)*));
            std::process::exit(1);
        }
    };
}

/// Encryption options by number: everyone has a secret of their own, and knows some of the others or everybody.
pub fn options(me: u8, knows: &[u8], any: bool) -> bromine::prelude::encrypted::EncryptionOptions<()> {
    use x25519_dalek::{PublicKey, StaticSecret};
    bromine::prelude::encrypted::EncryptionOptions {
        inner_options: (),
        keys: bromine::prelude::encrypted::Keys {
            secret: StaticSecret::from([me; 32]),
            known_peers: knows.iter().map(|k| PublicKey::from(&StaticSecret::from([*k; 32]))).collect(),
            allow_unknown: any,
        },
    }
}

/// A man in the middle of encrypted connections. Gets every package (connection, from the client?, number of
/// the package in that direction, its bytes) and returns what to send instead.
pub fn proxy<F: Fn(usize, bool, usize, Vec<u8>) -> Vec<Vec<u8>> + Send + Sync + 'static>(at: &PathBuf, to: &PathBuf, f: F) {
    let l = tokio::net::UnixListener::bind(at).unwrap();
    let to = to.clone();
    let f = std::sync::Arc::new(f);
    tokio::spawn(async move {
        for i in 0.. {
            let (a, _) = l.accept().await.unwrap();
            let b = connect(&to).await;
            let (ar, aw) = a.into_split();
            let (br, bw) = b.into_split();
            for (mut r, mut w, client) in [(ar, bw, true), (br, aw, false)] {
                let f = f.clone();
                tokio::spawn(async move {
                    let mut key = vec![0; 32];
                    if r.read_exact(&mut key).await.is_err() || w.write_all(&key).await.is_err() {
                        return;
                    }
                    for n in 0.. {
                        let len = match r.read_u32().await {
                            Ok(l) => l,
                            Err(_) => return,
                        };
                        let mut p = vec![0; len as usize];
                        if r.read_exact(&mut p).await.is_err() {
                            return;
                        }
                        for q in f(i, client, n, p) {
                            let mut b = (q.len() as u32).to_be_bytes().to_vec();
                            b.extend(q);
                            if w.write_all(&b).await.is_err() {
                                return;
                            }
                        }
                    }
                });
            }
        }
    });
}
